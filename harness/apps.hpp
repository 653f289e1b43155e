// The application layer on stand-ins for its window, its menus and OpenGL (harness/gui).
#pragma once
#include "worlds.hpp"
#include "Simu/app/Application.cpp"
#include "Simu/app/Camera.cpp"
#include "Simu/app/Renderer.cpp"
#include "Simu/app/Scene.cpp"
#include "Simu/app/Tool.cpp"

#pragma once
#include "imgui.h"

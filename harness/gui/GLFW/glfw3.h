// Stand-in for GLFW: one window whose state a harness sets and whose callbacks it calls.
#pragma once
struct GLFWwindow
{
    void* user = nullptr;
    int w = 640, h = 480;
    int fw = 640, fh = 480;
    double x = 0, y = 0;
    bool close = false;
    int keys[512]{};
    void (*frame)(GLFWwindow*, int, int)            = nullptr;
    void (*resize)(GLFWwindow*, int, int)           = nullptr;
    void (*key)(GLFWwindow*, int, int, int, int)    = nullptr;
    void (*cursor)(GLFWwindow*, double, double)     = nullptr;
    void (*button)(GLFWwindow*, int, int, int)      = nullptr;
    void (*scroll)(GLFWwindow*, double, double)     = nullptr;
    void (*poll)()                                  = nullptr;
    double time = 0;
    int shown = 0;
};
inline GLFWwindow glfwTheWindow;
typedef void (*GLFWglproc)();
#define GLFW_RELEASE 0
#define GLFW_PRESS 1
#define GLFW_REPEAT 2
inline int glfwInit() { return 1; }
inline void glfwTerminate() {}
inline void (*glfwSetErrorCallback(void (*f)(int, const char*)))(int, const char*) { return f; }
inline GLFWwindow* glfwCreateWindow(int w, int h, const char*, void*, void*)
{
    glfwTheWindow   = GLFWwindow{};
    glfwTheWindow.w = glfwTheWindow.fw = w;
    glfwTheWindow.h = glfwTheWindow.fh = h;
    return &glfwTheWindow;
}
inline void glfwDestroyWindow(GLFWwindow*) {}
inline void glfwSetWindowUserPointer(GLFWwindow* w, void* p) { w->user = p; }
inline void* glfwGetWindowUserPointer(GLFWwindow* w) { return w->user; }
inline void glfwSetFramebufferSizeCallback(GLFWwindow* w, void (*f)(GLFWwindow*, int, int)) { w->frame = f; }
inline void glfwSetWindowSizeCallback(GLFWwindow* w, void (*f)(GLFWwindow*, int, int)) { w->resize = f; }
inline void glfwSetKeyCallback(GLFWwindow* w, void (*f)(GLFWwindow*, int, int, int, int)) { w->key = f; }
inline void glfwSetCursorPosCallback(GLFWwindow* w, void (*f)(GLFWwindow*, double, double)) { w->cursor = f; }
inline void glfwSetMouseButtonCallback(GLFWwindow* w, void (*f)(GLFWwindow*, int, int, int)) { w->button = f; }
inline void glfwSetScrollCallback(GLFWwindow* w, void (*f)(GLFWwindow*, double, double)) { w->scroll = f; }
inline void glfwMakeContextCurrent(GLFWwindow*) {}
inline GLFWglproc glfwGetProcAddress(const char*) { return nullptr; }
inline void glfwGetWindowSize(GLFWwindow* g, int* w, int* h) { *w = g->w, *h = g->h; }
inline void glfwGetFramebufferSize(GLFWwindow* g, int* w, int* h) { *w = g->fw, *h = g->fh; }
inline void glfwGetCursorPos(GLFWwindow* g, double* x, double* y) { *x = g->x, *y = g->y; }
inline void glfwSetWindowTitle(GLFWwindow*, const char*) {}
inline void glfwSetTime(double) {}
inline double glfwGetTime() { return glfwTheWindow.time; }
inline int glfwWindowShouldClose(GLFWwindow* w) { return w->close; }
inline void glfwSetWindowShouldClose(GLFWwindow* w, int c) { w->close = c; }
inline void glfwPollEvents()
{
    if (glfwTheWindow.poll) glfwTheWindow.poll();
}
inline int glfwGetKey(GLFWwindow* w, int k) { return k >= 0 && k < 512 ? w->keys[k] : 0; }
inline void glfwSwapBuffers(GLFWwindow* w) { ++w->shown; }
inline void glfwSwapInterval(int) {}

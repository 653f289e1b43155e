// Stand-in for Dear ImGui: a harness says which item of the menus, line of a list and button are clicked,
// and that input is captured.
#pragma once
#include <cstring>
typedef unsigned ImGuiID;
typedef int ImGuiTableFlags;
struct ImVec2
{
    float x = 0, y = 0;
    ImVec2() = default;
    ImVec2(float a, float b) : x{a}, y{b} {}
    float& operator[](int i) { return i ? y : x; }
};
struct ImVec4
{
    float x = 0, y = 0, z = 0, w = 0;
};
struct ImDrawData {};
struct ImGuiIO
{
    int ConfigFlags         = 0;
    bool WantCaptureMouse    = false;
    bool WantCaptureKeyboard = false;
};
struct ImGuiStyle
{
    ImVec4 Colors[64];
};
struct ImGuiViewport
{
    ImVec2 WorkSize{640, 480};
};
struct ImGuiWindow
{
    char* Name = nullptr;
    struct
    {
        ImVec2 CursorMaxPos, CursorStartPos;
    } DC;
};
enum
{
    ImGuiDockNodeFlags_PassthruCentralNode = 1,
    ImGuiDockNodeFlags_DockSpace           = 2,
    ImGuiDir_Left                          = 0,
    ImGuiDir_Up                            = 2,
    ImGuiCol_WindowBg                      = 2,
    ImGuiConfigFlags_NavEnableKeyboard     = 1,
    ImGuiConfigFlags_DockingEnable         = 2,
    ImGuiConfigFlags_ViewportsEnable       = 4,
    ImGuiWindowFlags_AlwaysAutoResize      = 8,
    ImGuiTableFlags_Borders                = 1
};
#define IMGUI_CHECKVERSION() (void)0
namespace ImGui
{
inline ImGuiIO io;
inline const char* item   = nullptr; // clicked
inline const char* line   = nullptr;
inline const char* button = nullptr;
inline bool paused_ = false; // the label of the last button named Play
inline bool is(const char* a, const char* b) { return a && std::strcmp(a, b) == 0; }
inline ImGuiStyle style;
inline ImGuiViewport viewport;
inline ImGuiWindow window;
inline ImGuiIO& GetIO() { return io; }
inline ImGuiStyle& GetStyle() { return style; }
inline ImGuiViewport* GetMainViewport() { return &viewport; }
inline ImGuiWindow* GetCurrentWindow() { return &window; }
inline ImGuiWindow* FindWindowByName(const char*) { return &window; }
inline ImGuiID DockSpaceOverViewport(ImGuiID, const ImGuiViewport*, int) { return 1; }
inline void DockBuilderRemoveNode(ImGuiID) {}
inline void DockBuilderAddNode(ImGuiID, int) {}
inline void DockBuilderSetNodeSize(ImGuiID, ImVec2) {}
inline ImGuiID DockBuilderSplitNode(ImGuiID, int, float, ImGuiID*, ImGuiID*) { return 2; }
inline void DockBuilderDockWindow(const char*, ImGuiID) {}
inline void DockBuilderFinish(ImGuiID) {}
inline void StyleColorsDark() {}
inline void CreateContext() {}
inline void DestroyContext() {}
inline void NewFrame() {}
inline void Render() {}
inline ImDrawData* GetDrawData() { return nullptr; }
inline void UpdatePlatformWindows() {}
inline void RenderPlatformWindowsDefault() {}
inline bool BeginMainMenuBar() { return item != nullptr; }
inline void EndMainMenuBar() {}
inline bool BeginMenu(const char*) { return true; }
inline void EndMenu() {}
inline bool MenuItem(const char* n, const char*, bool* on)
{
    if (!is(item, n)) return false;
    *on = !*on;
    return true;
}
inline bool Begin(const char*, bool*, int) { return true; }
inline void End() {}
inline bool Selectable(const char* n, bool* on)
{
    if (!is(line, n)) return false;
    *on = true;
    return true;
}
template <class... A> void Text(const char*, A&&...) {}
inline void TableNextRow() {}
inline bool TableNextColumn() { return true; }
inline bool BeginTable(const char*, int, int) { return true; }
inline void TableSetupColumn(const char*) {}
inline void TableHeadersRow() {}
inline void EndTable() {}
inline void Separator() {}
inline bool Button(const char* n)
{
    if (is(n, "Play (P)")) paused_ = true;
    if (is(n, "Pause (P)")) paused_ = false;
    return is(button, n);
}
inline void PushItemWidth(float) {}
inline bool SliderInt(const char*, int*, int, int) { return false; }
inline bool SliderFloat(const char*, float*, float, float) { return false; }
inline bool SliderFloat2(const char*, float*, float, float) { return false; }
inline bool ColorEdit3(const char*, float*) { return false; }
inline bool Checkbox(const char*, bool*) { return false; }
inline void SameLine() {}
} // namespace ImGui

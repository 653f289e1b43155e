// Stand-in for OpenGL: keeps the buffers and tells a harness of every draw call.
#pragma once
#include <cstddef>
#include <cstdint>
namespace gl
{
typedef unsigned GLuint;
typedef int GLint;
typedef unsigned GLenum;
typedef int GLsizei;
typedef std::ptrdiff_t GLsizeiptr;
enum : GLenum { GL_BLEND, GL_SRC_ALPHA, GL_ONE_MINUS_SRC_ALPHA, GL_ARRAY_BUFFER, GL_ELEMENT_ARRAY_BUFFER, GL_FLOAT, GL_UNSIGNED_BYTE, GL_UNSIGNED_SHORT, GL_TRIANGLES, GL_STREAM_DRAW, GL_VERTEX_SHADER, GL_FRAGMENT_SHADER, GL_COMPILE_STATUS, GL_LINK_STATUS, GL_INFO_LOG_LENGTH, GL_COLOR_BUFFER_BIT, GL_STATIC_DRAW, GL_DYNAMIC_DRAW };
enum GLboolean : unsigned char { GL_FALSE = 0, GL_TRUE = 1 };
struct State
{
    const void* vertices = nullptr;
    const void* indices  = nullptr;
    std::size_t vertexBytes = 0, indexBytes = 0;
    float transform[9]{};
    bool transposed = false;
    int viewport[4]{};
    float clear[4]{};
    int clears = 0;
    struct Attribute
    {
        int n;
        GLenum type;
        bool normalized;
        std::size_t stride, offset;
    } attributes[2]{};
    void (*draw)(State&, GLenum mode, int n, GLenum type) = nullptr;
};
inline State state;
inline void glEnable(GLenum) {}
inline void glBlendFunc(GLenum, GLenum) {}
inline GLuint glCreateShader(GLenum) { return 1; }
inline void glShaderSource(GLuint, GLsizei, const char* const*, const GLint*) {}
inline void glCompileShader(GLuint) {}
inline void glGetShaderiv(GLuint, GLenum, GLint* v) { *v = 1; }
inline void glGetShaderInfoLog(GLuint, GLsizei, GLsizei*, char*) {}
inline void glDeleteShader(GLuint) {}
inline GLuint glCreateProgram() { return 2; }
inline void glAttachShader(GLuint, GLuint) {}
inline void glDetachShader(GLuint, GLuint) {}
inline void glLinkProgram(GLuint) {}
inline void glGetProgramiv(GLuint, GLenum, GLint* v) { *v = 1; }
inline void glGetProgramInfoLog(GLuint, GLsizei, GLsizei*, char*) {}
inline void glDeleteProgram(GLuint) {}
inline GLint glGetUniformLocation(GLuint, const char*) { return 3; }
inline void glGenVertexArrays(GLsizei, GLuint* v) { *v = 4; }
inline void glGenBuffers(GLsizei, GLuint* v) { *v = 5; }
inline void glDeleteVertexArrays(GLsizei, const GLuint*) {}
inline void glDeleteBuffers(GLsizei, const GLuint*) {}
inline void glBindVertexArray(GLuint) {}
inline void glBindBuffer(GLenum, GLuint) {}
inline void glVertexAttribPointer(GLuint i, GLint n, GLenum t, GLboolean norm, GLsizei stride, const void* offset)
{
    state.attributes[i] = {n, t, norm == GL_TRUE, (std::size_t)stride, (std::size_t)(std::uintptr_t)offset};
}
inline void glEnableVertexAttribArray(GLuint) {}
inline void glUseProgram(GLuint) {}
inline void glUniformMatrix3fv(GLint, GLsizei, GLboolean t, const float* v)
{
    for (int i = 0; i < 9; ++i) state.transform[i] = v[i];
    state.transposed = t == GL_TRUE;
}
inline void glBufferData(GLenum target, GLsizeiptr n, const void* p, GLenum)
{
    if (target == GL_ARRAY_BUFFER)
        state.vertices = p, state.vertexBytes = n;
    else
        state.indices = p, state.indexBytes = n;
}
inline void glDrawElements(GLenum mode, GLsizei n, GLenum type, const void*)
{
    if (state.draw) state.draw(state, mode, n, type);
}
inline void glClearColor(float r, float g, float b, float a) { state.clear[0] = r, state.clear[1] = g, state.clear[2] = b, state.clear[3] = a; }
inline void glClear(GLenum) { ++state.clears; }
inline void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { state.viewport[0] = x, state.viewport[1] = y, state.viewport[2] = w, state.viewport[3] = h; }
} // namespace gl

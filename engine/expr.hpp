// Expression DAG shared by the runtime. See runtime.cpp for the semantics.
#pragma once
#include <boost/multiprecision/gmp.hpp>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace sxr
{
using Rat = boost::multiprecision::mpq_rational;
using Int = boost::multiprecision::mpz_int;

enum Op : uint8_t
{
    CONST,   // integer constant (bits<=64) value in `c`
    SPECIAL, // float constant: in REAL mode only inf/nan, in FP mode every constant; bits in `c`
    VAR,
    POLY, // REAL mode: polynomial with rational coefficients
    ITE,
    NOT,
    AND,
    OR,
    XOR,
    LE0, // REAL: poly <= 0
    LT0, // REAL: poly < 0
    EQ0, // REAL: poly == 0
    INV, // REAL: 1/poly, poly != 0 on this path
    SQRT,
    SIN,
    COS,
    FBITS, // float -> integer bit pattern
    BITSF, // integer bit pattern -> float
    BVBIN, // aux = llvm opcode
    BVCMP, // aux = llvm predicate
    ZEXT,
    SEXT,
    TRUNC,
    CONCAT,
    FPBIN,
    FPNEG,
    FPABS,
    FPSQRT,
    FPCMP,
    FPCAST,
    FPROUND,
    FPCLASS, // aux = mask
    SITOFP,
    UITOFP,
};

struct Expr;
using Mono = std::vector<std::pair<Expr*, int>>; // sorted by id, powers > 0
struct MonoLess
{
    bool operator()(const Mono& a, const Mono& b) const;
};
using Poly = std::map<Mono, Rat, MonoLess>;

struct Range
{
    bool ok = false; // exact dyadic value k * 2^-scale with k in [lo, hi]
    int scale = 0;
    Int lo, hi;
};

struct Expr
{
    uint32_t id;
    Op op;
    uint8_t kind; // 0 int, 1 float
    uint8_t bits;
    int aux   = 0;
    uint64_t c = 0;
    std::vector<Expr*> k;
    Poly p;
    std::string name;
    Range r;
    // for VAR: declared bounds (REAL)
    bool bounded = false;
    Rat lo, hi;
    int var = -1; // index in the input table
    void* z = nullptr;     // Z3_ast cache
    std::vector<int>* deps = nullptr; // sorted ids of variables/atoms
};
} // namespace sxr

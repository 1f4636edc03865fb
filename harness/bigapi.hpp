// Interface between the C19 property and the separately configured copies of Qrack's integer code.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
namespace vq {
typedef std::vector<uint64_t> Limbs; // little-endian 64-bit limbs
struct BigIn {
    std::string op;
    Limbs a, b;
    uint64_t s = 0, t = 0; // shift count / small operand
    std::vector<int> list;
    std::string text;
};
struct BigOut {
    Limbs x, y;
    long i = 0;
    double d = 0;
    std::string text;
    bool has = true; // operation exists in this configuration
};
typedef BigOut (*BigFn)(const BigIn&);
struct BigCfg {
    int bits; // width of the integer type
    int wordBits; // width of the machine word it is built from
    bool native;
    BigFn fn;
};
std::map<std::string, BigCfg>& bigConfigs();
struct BigReg {
    BigReg(const char* n, const BigCfg& c) { bigConfigs()[n] = c; }
};
} // namespace vq

// small helpers shared by the demonstrations
#pragma once
#include <algorithm>
#include <cstdio>
#include <functional>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#include <string>
#include "codegen.hh"
#include "context.hh"
#include "debug.hh"
#include "except.hh"
#include "expr.hh"
#include "fsm.hh"
#include "generator.hh"
#include "hash.hh"
#include "interface.hh"
#include "optimize.hh"
#include "pass.hh"
#include "port.hh"
#include "sim.hh"
#include "stmt.hh"
#include "transform.hh"
#include "util.hh"
using namespace kratos;
static std::string squash(const std::string &s) {   // without blanks
    std::string r;
    for (char c : s) if (!isspace((unsigned char)c)) r += c;
    return r;
}
static std::string all_text(Generator &g) {
    auto m = generate_verilog(&g);
    std::string r;
    for (auto &x : m) r += x.second;
    return r;
}
static bool has(const std::string &t, const std::string &piece) { return squash(t).find(squash(piece)) != std::string::npos; }
#define EXPECT(c) do { if (!(c)) { std::cout << "FAILED: " #c "\n"; std::exit(1); } } while (0)

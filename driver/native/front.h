// The C++ front end of the library: reports descriptions and emits code for functions declared in C++.
#pragma once
#include <cstdio>
#include <string>
#include "wf/code_generation/ast_conversion.h"
#include "wf/code_generation/control_flow_graph.h"
#include "wf/code_generation/cpp_code_generator.h"
#include "wf/code_generation/declare_external_function.h"
#include "wf/code_generation/function_evaluator.h"
#include "wf/code_generation/rust_code_generator.h"
#include "wf/utility/overloaded_visit.h"

using wf::scalar_expr;
namespace ta = wf::type_annotations;

inline std::string q(const std::string& s) { return "\"" + s + "\""; }

inline std::string reported(const wf::type_variant& t) {
  const auto rec = [](const std::string& k, long r, long c, const std::string& n, const std::string& fs, std::size_t size) {
    return "{\"k\":" + q(k) + ",\"r\":" + std::to_string(r) + ",\"c\":" + std::to_string(c) + ",\"n\":" + q(n) + ",\"fs\":[" + fs +
           "],\"size\":" + std::to_string(size) + "}";
  };
  return wf::overloaded_visit(
      t,
      [&](const wf::scalar_type& s) {
        const auto n = s.numeric_type();
        return rec(n == wf::numeric_primitive_type::floating_point ? "s" : n == wf::numeric_primitive_type::integral ? "i" : "b", 0, 0, "", "", 1);
      },
      [&](const wf::matrix_type& m) { return rec("m", m.rows(), m.cols(), "", "", m.size()); },
      [&](const wf::custom_type& c) {
        std::string fs;
        for (const auto& f : c.fields()) fs += (fs.empty() ? "" : ",") + std::string("{\"f\":") + q(f.name()) + ",\"t\":" + reported(f.type()) + "}";
        return rec("c", 0, 0, c.name(), fs, c.total_size());
      });
}

inline std::string params(const wf::function_description& d) {
  std::string s;
  for (const wf::argument& a : d.arguments()) {
    const auto dir = a.direction();
    s += (s.empty() ? "" : ",") + std::string("{\"n\":") + q(a.name()) + ",\"d\":" +
         q(dir == wf::argument_direction::input ? "in" : dir == wf::argument_direction::output ? "out" : "opt") + ",\"t\":" + reported(a.type()) +
         ",\"opt\":" + (a.is_optional() ? "1" : "0") + ",\"inp\":" + (a.is_input() ? "1" : "0") + "}";
  }
  return s;
}

template <class E> std::string ext() {
  const auto& [f, types] = E::get_description_and_arg_types();
  std::string ps;
  for (const wf::argument& a : f.arguments())
    ps += (ps.empty() ? "" : ",") + std::string("{\"n\":") + q(a.name()) + ",\"t\":" + reported(a.type()) + ",\"at\":" +
          std::to_string(f.arg_position(a.name()).value_or(99)) + "}";
  return "{\"n\":" + q(f.name()) + ",\"num\":" + std::to_string(f.num_arguments()) + ",\"ps\":[" + ps + "],\"r\":" + reported(f.return_type()) + "}";
}

inline void show(const wf::function_description& d, const std::string& exts, int fact, bool tern, const char* ns) {
  std::printf("D {\"name\":%s,\"params\":[%s],\"exts\":[%s]}\n", q(d.name()).c_str(), params(d).c_str(), exts.c_str());
  wf::optimization_params p{};
  p.factorization_passes = fact;
  const auto cfg = wf::control_flow_graph{d, p}.convert_conditionals_to_control_flow(tern);
  const auto def = wf::ast::create_ast(cfg, d);
  const wf::cpp_code_generator g{wf::cpp_matrix_type_behavior::eigen};
  std::printf("<<<\n%s\n>>>\n", g.apply_preamble(g(def), ns).c_str());
}

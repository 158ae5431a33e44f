// Guided state-set search: which states of an executable nondeterministic model can
// explain what the workers were observed to do since the last quiescent point?
#pragma once
#include "ops.h"
#include <cstring>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

constexpr int MAXT = 8;
constexpr int MAXSEQ = 6;

struct Obs {            // what one worker did with its command sequence
  bool active = false;  // had a command in flight during this burst
  bool pending = false; // still inside an operation at quiescence
  bool free = false;    // (probing) in the middle of an operation: any result is possible
  int n = 0;            // operations completed (results known)
  int res[MAXSEQ];
};

template <class S> struct Outc { S s; int nd = 0; int8_t t[MAXT * 2]; int r[MAXT * 2]; void done(int th, int res) { t[nd] = (int8_t)th; r[nd++] = res; } };

// Model M provides: State, OpT (with bool ifok), and
//  void attempt(const State&, int t, const OpT&, std::vector<Outc<State>>&)   t may complete or become waiting
//  void internal(const State&, std::vector<Outc<State>>&)
//  bool settled(const State&)        nothing that must happen is left undone
//  void key(const State&, std::string&)
template <class M> struct Search {
  using State = typename M::State;
  using OpT = typename M::OpT;
  struct PT { int8_t st = 0, pc = 0; };  // st: 0 idle/finished 1 ready 2 waiting
  struct Node { State s; PT th[MAXT]; };
  struct SetE { State s; PT th[MAXT]; };
  std::vector<SetE> set;
  uint64_t explored = 0;
  bool probing = false;   // is there any way to reach what was observed, with the other threads in mid-operation?
  bool overflow = false;
  size_t cap_nodes = 60000, cap_set = 600;

  void reset(const State& s0) { set.clear(); SetE e; e.s = s0; set.push_back(e); overflow = false; }

  // advance bookkeeping after op pc of t got result r; false: contradicts the observation
  bool complete(Node& n, int t, int r, const Obs* obs, const std::vector<OpT>* seq) {
    int pc = n.th[t].pc;
    if (obs[t].free && pc >= obs[t].n) { n.th[t].pc = (int8_t)(pc + 1); n.th[t].st = pc + 1 < (int)seq[t].size() && !seq[t][(size_t)pc + 1].ifok ? 1 : 0; if (pc + 1 < (int)seq[t].size() && seq[t][(size_t)pc + 1].ifok && r == RES_TRUE) n.th[t].st = 1; return true; }
    if (pc >= obs[t].n || obs[t].res[pc] != r) return false;
    pc++;
    while (pc < (int)seq[t].size() && pc < obs[t].n && obs[t].res[pc] == RES_SKIP) pc++;
    n.th[t].pc = (int8_t)pc;
    if (pc >= (int)seq[t].size()) n.th[t].st = 0;
    else if (pc < obs[t].n || obs[t].pending || obs[t].free) n.th[t].st = 1;
    else return false;
    return true;
  }

  // started[t]: t was given a new sequence in this burst (else: it was already waiting)
  bool step(M& m, int nt, const std::vector<OpT>* seq, const Obs* obs, const bool* started, std::vector<SetE>& out) {
    std::vector<Node> work;
    std::unordered_set<std::string> seen, fin;
    std::string k;
    std::vector<Outc<State>> oc;
    out.clear();
    auto push = [&](Node& n) {
      k.clear(); m.key(n.s, k);
      for (int t = 0; t < nt; t++) { k.push_back(n.th[t].st); k.push_back(n.th[t].pc); }
      if (seen.insert(k).second) work.push_back(n);
    };
    for (auto& e : set) {
      Node n; n.s = e.s;
      for (int t = 0; t < nt; t++) {
        n.th[t] = e.th[t];
        if (started[t]) { n.th[t].st = 1; n.th[t].pc = 0; }
      }
      push(n);
    }
    while (!work.empty()) {
      if (seen.size() > cap_nodes) { overflow = true; return true; }
      Node n = work.back(); work.pop_back();
      explored++;
      bool term = true;
      for (int t = 0; t < nt; t++) {
        if (!obs[t].active) continue;
        if (obs[t].free) { if (n.th[t].pc < obs[t].n) term = false; continue; }
        if (n.th[t].st == 1) term = false;
        else if (n.th[t].st == 0) { if (obs[t].pending) term = false; }
        else if (!(obs[t].pending && n.th[t].pc == obs[t].n)) term = false;
      }
      if (term && probing) { SetE e; e.s = n.s; out.push_back(e); return true; }
      if (term && m.settled(n.s)) {
        k.clear(); m.key(n.s, k);
        if (fin.insert(k).second) { SetE e; e.s = n.s; for (int t = 0; t < nt; t++) e.th[t] = n.th[t]; out.push_back(e); if (out.size() > cap_set) { overflow = true; return true; } }
      }
      auto apply = [&]() {
        for (auto& o : oc) {
          Node x = n; x.s = o.s;
          bool ok = true;
          for (int i = 0; ok && i < o.nd; i++) ok = complete(x, o.t[i], o.r[i], obs, seq);
          if (ok) push(x);
        }
      };
      if (m.commuting()) {  // waiter completions that match the observation commute with everything: take one at a time
        oc.clear(); m.internal(n.s, oc);
        bool taken = false;
        for (auto& o : oc) {
          Node x = n; x.s = o.s;
          bool ok = true;
          for (int i = 0; ok && i < o.nd; i++) ok = complete(x, o.t[i], o.r[i], obs, seq);
          if (ok) { push(x); taken = true; break; }
        }
        if (taken) continue;
      }
      for (int t = 0; t < nt; t++) {
        if (n.th[t].st != 1) continue;
        oc.clear();
        m.attempt(n.s, t, seq[t][n.th[t].pc], oc);
        for (auto& o : oc) {
          Node x = n; x.s = o.s;
          x.th[t].st = 2;
          bool ok = true;
          for (int i = 0; ok && i < o.nd; i++) ok = complete(x, o.t[i], o.r[i], obs, seq);
          if (ok) push(x);
        }
      }
      if (m.commuting()) continue;
      oc.clear();
      m.internal(n.s, oc);
      apply();
    }
    return !out.empty();
  }
};

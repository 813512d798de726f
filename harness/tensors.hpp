// Server / client set-up shared by the tensor harnesses.
#pragma once
#include "common.hpp"
#include <EigenIPC/Server.hpp>
#include <EigenIPC/Client.hpp>
#include <EigenIPC/SharedMemConfig.hpp>
using namespace EigenIPC;
typedef Journal::VLevel VL;
static inline SharedMemConfig names_of(const char *nm = "nm", const char *ns = "ns") { return SharedMemConfig(std::string(nm), std::string(ns)); }
static inline std::string S_(const char *s) { return std::string(s); }
struct Lock_ { std::string data, shm, srv, nclients, run; Lock_(const char *nm = "nm", const char *ns = "ns") { SharedMemConfig c = names_of(nm, ns); data = c.mem_path_data_sem; shm = c.mem_path; srv = c.mem_path_server_sem; nclients = c.mem_path_clients_counter; run = c.mem_path_isrunning; }
  int free_() { return mdl_sem_value(data.c_str()); } int ops() { return mdl_sem_ops(data.c_str()); } char *mem() { return (char *)mdl_shm_data(shm.c_str()); } long size() { return mdl_shm_size(shm.c_str()); } };
template <class F> static auto as(int pid, F f) -> decltype(f()) { struct R { int o; ~R() { sx_set_pid(o); } } r{sx_pid()}; sx_set_pid(pid); return f(); }
static inline VL vlevel() { return (VL)sx_cfg("vlevel", 0); }
static inline bool verbose() { return sx_cfg("verbose", 0); }
// one server and one client of one tensor
template <class T, int L> struct Pair {
  Slot<Server<T, L>> s; Slot<Client<T, L>> c; int R, C;
  void server(int r, int c_, bool safe, bool force = false) { R = r; C = c_; as(1, [&] { s.make(r, c_, S_("nm"), S_("ns"), verbose(), vlevel(), force, safe); return 0; }); }
  void client(bool safe) { as(2, [&] { c.make(S_("nm"), S_("ns"), verbose(), vlevel(), safe); return 0; }); }
  void both(int r, int c_, bool ssafe, bool csafe) { server(r, c_, ssafe); as(1, [&] { s->run(); return 0; }); client(csafe); as(2, [&] { c->attach(); return 0; }); }
  size_t bytes() { return sizeof(T) * R * C; }
  size_t at(int i, int j) { return L == RowMajor ? i * C + j : j * R + i; }
};

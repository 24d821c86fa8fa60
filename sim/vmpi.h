// One process under test with simulated MPI peers: what happened inside of the simulated MPI.
#pragma once
#include <cstdint>
enum { V_SENT, V_POSTED, V_RECVD, V_CANCELLED, V_DONE, V_INIT };
struct VEv { int what; uint64_t uid; int peer, tag; int64_t len; uint64_t comm; };
namespace sim {
void     mpi_virtual(int nranks, int rank);
uint64_t vmpi_comm_uid(void* comm);
int      vmpi_comm_ranks(void* comm, int* out);
int      vmpi_drain(VEv* out);            // events of the calling thread since the last call (at most 512)
void     vmpi_gate(bool closed);
void     vmpi_between_calls();
void     vmpi_thread(int d);              // +1: a thread starts to make calls, -1: it ended
}

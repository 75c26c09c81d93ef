#include "dsym.h"
#include "Request.hpp"
#include "values/All.hpp"
#include <cstring>
using namespace DowowNetwork;
extern "C" void h_int() { int32_t v=sym<int32_t>("v"); Value32S a(v); const char* s=a.Serialize(); Value32S b; uint32_t u=b.Deserialize(s,a.GetSize()); dsym_assert(u==9,"used"); dsym_assert(b.Get()==v,"value"); delete[] s; dsym_reach("end"); }
extern "C" void h_val() { int n=dsym_param("n",8); char* b=new char[n]; dsym_make_symbolic(b,n,"b"); Value32S v; uint32_t u=v.Deserialize(b,n); dsym_assert(u<=(uint32_t)n,"used<=n"); delete[] b; }
extern "C" void h_req() { int n=dsym_param("n",12); char* b=new char[n]; dsym_make_symbolic(b,n,"b"); { Request r; uint32_t u=r.Deserialize(b,n); dsym_assert(u<=(uint32_t)n,"used<=n"); if (u) dsym_reach("ok"); } delete[] b; dsym_assert(dsym_live_bytes()==0,"leak"); }

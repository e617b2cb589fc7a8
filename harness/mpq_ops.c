/* Operations of the multi-producer queue that live in the library's headers: compiled like the library itself. */
#include <string.h>
#include "sphlfentry.h"
#include "sphdirectpcqueue.h"
int ops_dcomplete(char *p, sphLFEntryID_t tmpl, int cat, int sub)
{ return SPHLFEntryDirectComplete((SPHLFEntryDirect_t)p, tmpl, cat, sub); }
void ops_dfill(char *p, int n, int v) { char *d = (char*)SPHLFEntryDirectGetFreePtr((SPHLFEntryDirect_t)p); for (char *e = p + n; d + 4 <= e; d += 4) *(volatile int*)d = v; }
int ops_dread(char *p, int n)
{
  char *d = (char*)SPHLFEntryDirectGetFreePtr((SPHLFEntryDirect_t)p), *e = p + n;
  int v = *(volatile int*)d;
  for (; d + 4 <= e; d += 4) if (*(volatile int*)d != v) return -1;
  return v;
}
int ops_dcat(char *p) { return SPHLFEntryDirectCategory((SPHLFEntryDirect_t)p); }
int ops_dsub(char *p) { return SPHLFEntryDirectSubcat((SPHLFEntryDirect_t)p); }
int ops_dts(char *p) { return SPHLFEntryDirectIsTimestamped((SPHLFEntryDirect_t)p); }
int ops_dcomp(char *p) { return SPHLFEntryDirectIsComplete((SPHLFEntryDirect_t)p); }

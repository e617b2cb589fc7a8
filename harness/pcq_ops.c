/* Operations that live in the library's headers, and the accesses to entry contents: compiled like the library itself. */
#include <string.h>
#include "sphlfentry.h"
#include "sphdirectpcqueue.h"
int ops_complete(int how, SPHLFEntryHandle_t *h, sphLFEntryID_t tmpl)
{
  switch (how) {
  case 0: return SPHSinglePCQueueEntryComplete(h);
  case 1: return SPHLFEntryComplete(h) + 1;
  case 2: return SPHLFEntryStrongComplete(h) + 1;
  default: return SPHLFEntryDirectComplete((SPHLFEntryDirect_t)h->entry, tmpl, 1, 2);
  }
}
void ops_fill(char *p, int n, int v) { for (int i = 0; i + 4 <= n; i += 4) *(volatile int*)(p + i) = v; }
/* the value every word has, or -1 */
int ops_read(char *p, int n)
{
  int v = *(volatile int*)p;
  for (int i = 4; i + 4 <= n; i += 4) if (*(volatile int*)(p + i) != v) return -1;
  return v;
}
int ops_timestamped(SPHLFEntryHandle_t *h) { return SPHLFEntryIsTimestamped(h); }

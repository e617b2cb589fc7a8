/* What the store reports about its blocks. */
#ifndef VERIF_STORE_H
#define VERIF_STORE_H
#define LISTMAX 65536
static void *sl_a[LISTMAX]; static unsigned long sl_n[LISTMAX]; static int sl_c;
static unsigned long __attribute__((unused)) list_total(void (*f)(void**, unsigned long*, int*))
{
  sl_c = 0; f(sl_a, sl_n, &sl_c);
  unsigned long t = 0;
  for (int i = 0; i < sl_c; i++) t += sl_n[i];
  return t;
}
static unsigned long __attribute__((unused)) store_free_total(void)
{ return list_total(SASListFreeRegion) + list_total(SASListFreeMem) + list_total(SASListUncommittedMem); }
#endif

/* The atomic primitives live in a header: compiled like the library itself. */
#include <stddef.h>
#include <stdint.h>
#include "sasatom.h"
#include "atom_ops.h"
uint64_t atom_do(int o, uint64_t *p, uint64_t x, uint64_t y)
{
  switch (o) {
  case A_ADD: return (uint64_t)sas_fetch_and_add((long*)p, (long)x);
  case A_ADDP: return (uint64_t)sas_fetch_and_add_ptr((void**)p, (long)x);
  case A_INC: sas_atomic_inc((long*)p); return 0;
  case A_DEC: sas_atomic_dec((long*)p); return 0;
  case A_INCL: return (uint64_t)sas_atomic_inc_long((volatile long*)p);
  case A_DECL: return (uint64_t)sas_atomic_dec_long((volatile long*)p);
  case A_AND: return (uint64_t)sas_fetch_and_and((unsigned*)p, (int)x);
  case A_OR: return (uint64_t)sas_fetch_and_or((unsigned*)p, (int)x);
  case A_ANDL: return (uint64_t)sas_fetch_and_and_long((unsigned long*)p, (long)x);
  case A_ORL: return (uint64_t)sas_fetch_and_or_long((unsigned long*)p, (long)x);
  case A_SWAP: return (uint64_t)sas_atomic_swap((long*)p, (long)x);
  case A_CAS: return (uint64_t)!!sas_compare_and_swap((volatile long*)p, (long)x, (long)y);
  case A_SPININIT: sas_spin_lock_init((volatile sas_spin_lock_t*)p); return 0;
  case A_SPIN: sas_spin_lock((volatile sas_spin_lock_t*)p); return 0;
  case A_SPINY: sas_spin_lock_with_yield((volatile sas_spin_lock_t*)p); return 0;
  case A_SPINTRY: return (uint64_t)sas_spin_trylock((volatile sas_spin_lock_t*)p);
  case A_SPINFREE: sas_spin_unlock((volatile sas_spin_lock_t*)p); return 0;
  case A_PTRINIT: sas_lock_ptr_init((volatile sas_lock_ptr_t*)p); return 0;
  case A_PTR: return (uint64_t)sas_lock_ptr((volatile sas_lock_ptr_t*)p);
  case A_PTRY: sas_lock_ptr_with_yield((volatile sas_lock_ptr_t*)p); return 0;
  case A_PTRTRY: return (uint64_t)!!sas_trylock_ptr((volatile sas_lock_ptr_t*)p);
  case A_PTRSET: sas_set_unlocked_ptr((volatile sas_lock_ptr_t*)p, (void*)x); return 0;
  case A_PTRSETLK: sas_set_locked_ptr((volatile sas_lock_ptr_t*)p, (void*)x); return 0;
  case A_PTRFREE: sas_unlock_ptr((volatile sas_lock_ptr_t*)p); return 0;
  }
  return 0;
}
/* many of a kind */
void atom_many(int o, uint64_t *p, uint64_t d, int k, uint64_t *out, int tag)
{
  switch (o) {
  case A_ADD: for (int i = 0; i < k; i++) out[i] = (uint64_t)sas_fetch_and_add((long*)p, (long)d); break;
  case A_ADDP: for (int i = 0; i < k; i++) out[i] = (uint64_t)sas_fetch_and_add_ptr((void**)p, (long)d); break;
  case A_INC: for (int i = 0; i < k; i++) sas_atomic_inc((long*)p); break;
  case A_DEC: for (int i = 0; i < k; i++) sas_atomic_dec((long*)p); break;
  case A_INCL: for (int i = 0; i < k; i++) out[i] = (uint64_t)sas_atomic_inc_long((volatile long*)p); break;
  case A_DECL: for (int i = 0; i < k; i++) out[i] = (uint64_t)sas_atomic_dec_long((volatile long*)p); break;
  case A_CAS: for (int i = 0; i < k; ) { long v = *(volatile long*)p; if (sas_compare_and_swap((volatile long*)p, v, v + 1)) out[i++] = (uint64_t)v; } break;
  case A_SWAP: for (int i = 0; i < k; i++) out[i] = (uint64_t)sas_atomic_swap((long*)p, (long)atom_tag(tag + i)); break;
  case A_OR: { unsigned b = 1u << d; for (int i = 0; i < k; i++) out[i] = (((i % 2 ? (uint64_t)sas_fetch_and_and((unsigned*)p, ~b) : (uint64_t)sas_fetch_and_or((unsigned*)p, b))) >> d) & 1; break; }
  case A_ORL: { unsigned long b = 1ul << d; for (int i = 0; i < k; i++) out[i] = (((i % 2 ? (uint64_t)sas_fetch_and_and_long((unsigned long*)p, ~b) : (uint64_t)sas_fetch_and_or_long((unsigned long*)p, b))) >> d) & 1; break; }
  }
}
/* a section, one at a time: a plain counter and a count of who is inside */
void atom_section(int o, uint64_t *p, int k, long *count, int *inside, int *most)
{
  for (int i = 0; i < k; i++) {
    switch (o) {
    case A_SPIN: sas_spin_lock((volatile sas_spin_lock_t*)p); break;
    case A_SPINY: sas_spin_lock_with_yield((volatile sas_spin_lock_t*)p); break;
    case A_SPINTRY: while (sas_spin_trylock((volatile sas_spin_lock_t*)p)) ; break;
    case A_PTR: sas_lock_ptr((volatile sas_lock_ptr_t*)p); break;
    case A_PTRY: sas_lock_ptr_with_yield((volatile sas_lock_ptr_t*)p); break;
    case A_PTRTRY: while (sas_trylock_ptr((volatile sas_lock_ptr_t*)p)) ; break;
    case A_PTRSET: sas_set_unlocked_ptr((volatile sas_lock_ptr_t*)p, (void*)0x123456789aUL); break;
    }
    int n = *(volatile int*)inside + 1;
    *(volatile int*)inside = n;
    if (n > *most) *most = n;
    (*count)++;
    if (*(volatile int*)inside != n) *most = 99;
    *(volatile int*)inside = n - 1;
    if (o == A_SPIN || o == A_SPINY || o == A_SPINTRY) sas_spin_unlock((volatile sas_spin_lock_t*)p);
    else sas_unlock_ptr((volatile sas_lock_ptr_t*)p);
  }
}

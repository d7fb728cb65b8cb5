/* helpers of the demonstrations: evaluate a BDD by walking it */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "cal.h"
static int ev(Cal_BddManager m, Cal_Bdd f0, unsigned a) /* bit id-1 of a */
{
  Cal_Bdd f = Cal_BddIdentity(m, f0), t; int r;
  while (!Cal_BddIsBddConst(m, f)) {
    int id = Cal_BddGetIfId(m, f);
    t = (a >> (id-1)) & 1 ? Cal_BddThen(m, f) : Cal_BddElse(m, f);
    Cal_BddFree(m, f); f = t;
  }
  r = Cal_BddIsBddOne(m, f); Cal_BddFree(m, f); return r;
}
static unsigned rs = 12345;
static unsigned rnd(unsigned n) { rs = rs*1103515245u + 12345u; return (rs >> 10) % n; }
static Cal_Bdd rfun(Cal_BddManager m, Cal_Bdd *v, int n, int ops)
{
  Cal_Bdd f = Cal_BddIdentity(m, v[rnd(n)]), g; int i;
  for (i = 0; i < ops; i++) {
    Cal_Bdd x = Cal_BddIdentity(m, v[rnd(n)]), y = x;
    if (rnd(2)) { y = Cal_BddNot(m, x); Cal_BddFree(m, x); }
    switch (rnd(4)) {
    case 0: g = Cal_BddAnd(m, f, y); break;
    case 1: g = Cal_BddOr(m, f, y); break;
    case 2: g = Cal_BddXor(m, f, y); break;
    default: g = Cal_BddITE(m, v[rnd(n)], f, y); break;
    }
    if (Cal_BddIsBddConst(m, g)) { Cal_BddFree(m, g); g = Cal_BddIdentity(m, f); }
    Cal_BddFree(m, f); Cal_BddFree(m, y); f = g;
  }
  return f;
}
static void table(Cal_BddManager m, Cal_Bdd f, int n, char *out)
{ unsigned a; for (a = 0; a < (1u << n); a++) out[a] = ev(m, f, a); }
static int fails = 0;
#define CHECK(c) do { if (!(c)) { printf("FAIL %s:%d %s\n", __FILE__, __LINE__, #c); fails++; } } while (0)

// Adapter between the reference model's types and the code under test (headers from /repo/src).
#pragma once
#include "verifier.h"
#ifndef HAVE_PROVER_SLOW
#include "prover_slow.h"
#endif
#include "create_discriminant.h"
#include "model.h"
#include "pbt.h"

namespace rp {
typedef model::Z Z; typedef model::F F; typedef model::Bytes Bytes;
inline integer I(const Z &z) { integer r; mpz_set(r.impl, z.get_mpz_t()); return r; }
inline Z fromI(const integer &i) { return Z(i.impl); }
inline form toForm(const F &f) { form r; mpz_set(r.a.impl, f.a.get_mpz_t()); mpz_set(r.b.impl, f.b.get_mpz_t()); mpz_set(r.c.impl, f.c.get_mpz_t()); return r; }
inline F fromForm(const form &f) { F r; r.a = Z(f.a.impl); r.b = Z(f.b.impl); r.c = Z(f.c.impl); return r; }
inline integer L4(const Z &D) { return root(-I(D), 4); }
}

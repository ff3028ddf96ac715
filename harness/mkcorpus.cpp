// Collects control sequences of rare path types of the frozen reference copy: goals driven by (stretched) sequences of this corpus reach path
// families that random poses hardly ever do.   mkcorpus SEED SECONDS > corpus lines "CONFIG PLANNER ds k s ds k s ..." (max. curvature 1)
#include <chrono>
#include "common.hpp"
char g_now[8192]; Mon *g_mons = nullptr;
static std::string canon(std::string w, bool rev)
{
  auto sw = [](std::string s, const char *f, const char *t) { for (auto &c : s) { const char *p = strchr(f, c); if (p) c = t[p - f]; } return s; };
  std::string m = std::min(w, sw(w, "ablr", "barl"));
  if (!rev) return m;
  std::string v = sw(w, "+-", "-+"); // reflected at the y axis: curvature changes its sign with the heading, so left and right swap as well or not
  return std::min(std::min(m, v), sw(v, "ablr", "barl"));
}
int main(int argc, char **argv)
{
  Rng r(mix(atol(argv[1]), 99)); double T = atof(argv[2]);
  int ncf = sizeof CORPUS_DM / sizeof *CORPUS_DM; auto t0 = std::chrono::steady_clock::now();
  struct E { long n = 0; std::vector<Ct> c; };
  std::vector<std::map<std::pair<int, std::string>, E>> M(ncf); std::vector<long> tot(ncf, 0);
  std::vector<std::vector<std::unique_ptr<Planner>>> P; for (int i = 0; i < ncf; i++) P.push_back(ref::all(1, 1 / (2 * CORPUS_DM[i]), 0.1));
  while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < T)
    for (int f = 0; f < ncf; f++)
    {
      Cfg c; c.k = 1; c.s = 1 / (2 * CORPUS_DM[f]); c.disc = 0.1; c.broad = false; static const int cl[] = { 0, 0, 0, 5, 8, 9, 11, 13, 6, 8, 1, 3 };
      Query q = gen_query(r, c, cl[r.i(12)]); tot[f]++;
      // grow: stretch a word that is already known
      if (r.b() && !M[f].empty()) { auto it = M[f].begin(); std::advance(it, r.i((int)M[f].size())); std::vector<Ct> w = it->second.c; for (auto &u : w) if (std::fabs(u.s) < 1e-9 && r.b()) u.ds *= r.lg(0.1, 4); Pose p{ q.a.x, q.a.y, q.a.th, 0 }; for (auto &u : w) p = drive(p, u); q.a.k = w[0].k; q.b = St{ p.x, p.y, wrapa(p.th), w.back().k + w.back().s * std::fabs(w.back().ds), 0 }; }
      for (int id = 0; id < NPLANNERS; id++)
      {
        Planner &p = *P[f][id]; if (p.k0 == 'a' || p.fam == 'D') continue;
        auto cs = p.ctl(q.a, q.b); An A = analyse(p, q.a, cs); if (!A.ok || A.len < 1e-3 || pose_gap(St{ A.e.x, A.e.y, A.e.th, 0, 0 }, q.b) > 1e-3) continue;
        std::string w; for (size_t i = 0; i + 1 < A.word.size(); i += 2) if (A.word[i] != 'z') w += A.word.substr(i, 2);
        E &e = M[f][{ id, canon(w, p.dir == 0) }]; if (e.n++ == 0 || r.i((int)std::min<long>(e.n, 1000)) == 0) { e.c.clear(); for (auto &u : cs) if (std::fabs(u.ds) > 1e-6) e.c.push_back(u); }
      }
    }
  for (int f = 0; f < ncf; f++)
  {
    fprintf(stderr, "delta_min %g: %ld queries, %zu words\n", CORPUS_DM[f], tot[f], M[f].size());
    for (auto &m : M[f]) { if (m.second.n > 0.02 * tot[f] || m.second.c.empty()) continue; printf("%d %d", f, m.first.first); for (auto &u : m.second.c) printf(" %.7g %.7g %.7g", u.ds, u.k, u.s); printf("\n"); }
  }
}

// TracksManager and union-find: a script of operations on managers, then what they hold.
#include "rt.h"
#include "vf.h"
#include <foundation/union_find.h>
#include <map/src/tracks_manager.cc>
#include <sfm/src/tracks_helpers.cc>
static const char* kShot[] = {"S0", "S1", "S2", "S3", "none"};
static const char* kTrack[] = {"0", "1", "2", "3", "4", "5", "none"};
enum { NS = 4, NT = 6, NF = 4 };
static void put(const map::Observation& o, double*& out) {
  *out++ = o.point(0); *out++ = o.point(1); *out++ = o.scale; *out++ = o.feature_id;
  *out++ = o.color(0); *out++ = o.segmentation_id; *out++ = o.instance_id;
  *out++ = o.depth_prior ? o.depth_prior->value : -1.0;
}
static int at(const char* const* t, int n, const std::string& s) {
  for (int i = 0; i < n; ++i) if (s == t[i]) return i;
  return -1;
}
// cfg: commands, ended by -1.  in: payloads (x, y, scale, depth), in order of use
VF(script) {
  std::vector<map::TracksManager> ms;
  double* const start = out;
  for (;;) {
    const int op = *cfg++;
    if (op < 0) break;
    if (op == 9) { ms.clear(); const int k = *cfg++; for (int i = 0; i < k; ++i) ms.emplace_back(); continue; }
    if (op == 0) {  // add m s t f payload
      const double* v = in + 4 * cfg[4];
      const int f = cfg[3];
      map::Observation o(v[0], v[1], v[2], 10 + f, 20 + f, 30 + f, f, 40 + f, 50 + f, map::Depth(v[3], true, 1.0));
      ms[cfg[0]].AddObservation(kShot[cfg[1]], kTrack[cfg[2]], o);
      cfg += 5;
    } else if (op == 1) {
      ms[cfg[0]].RemoveObservation(kShot[cfg[1]], kTrack[cfg[2]]);
      cfg += 3;
    } else if (op == 2) {  // subset m nt t.. ns s..
      const int m = *cfg++;
      std::vector<std::string> t, s;
      for (int n = *cfg++; n; --n) t.push_back(kTrack[*cfg++]);
      for (int n = *cfg++; n; --n) s.push_back(kShot[*cfg++]);
      ms.push_back(ms[m].ConstructSubTracksManager(t, s));
    } else if (op == 3) {
      std::vector<const map::TracksManager*> p;
      for (int n = *cfg++; n; --n) p.push_back(&ms[*cfg++]);
      auto r = map::TracksManager::MergeTracksManager(p);
      ms.push_back(r);
    } else if (op == 4) {
#ifdef VF_NATIVE
      ms.push_back(map::TracksManager::InstanciateFromString(ms[*cfg++].AsString()));
#endif
    } else if (op == 5) {  // everything that can be asked
      const auto& m = ms[*cfg++];
      *out++ = m.NumShots(); *out++ = m.NumTracks();
      int ns = 0, nt = 0;
      for (const auto& s : m.GetShotIds()) ns |= 1 << at(kShot, NS, s);
      for (const auto& t : m.GetTrackIds()) nt |= 1 << at(kTrack, NT, t);
      *out++ = ns; *out++ = nt;
      *out++ = m.GetShotIds().size(); *out++ = m.GetTrackIds().size();
      for (int s = 0; s < NS; ++s) {
        *out++ = m.HasShotObservations(kShot[s]);
        if (!(ns >> s & 1)) continue;
        const auto& obs = m.GetShotObservations(kShot[s]);
        *out++ = obs.size();
        for (int t = 0; t < NT; ++t) {
          const auto it = obs.find(kTrack[t]);
          if (it == obs.end()) { *out++ = -1; continue; }
          put(it->second, out);
          put(m.GetObservation(kShot[s], kTrack[t]), out);
        }
      }
      for (int t = 0; t < NT; ++t) {
        if (!(nt >> t & 1)) continue;
        const auto& obs = m.GetTrackObservations(kTrack[t]);
        *out++ = obs.size();
        for (int s = 0; s < NS; ++s) {
          const auto it = obs.find(kShot[s]);
          if (it == obs.end()) { *out++ = -1; continue; }
          put(it->second, out);
        }
      }
    } else if (op == 6) {  // common m a b
      const auto& m = ms[*cfg++];
      const int a = *cfg++, b = *cfg++;
      const auto c = m.GetAllCommonObservations(kShot[a], kShot[b]);
      *out++ = c.size();
      for (int t = 0; t < NT; ++t)
        for (const auto& k : c)
          if (std::get<0>(k) == kTrack[t]) { put(std::get<1>(k), out); put(std::get<2>(k), out); }
    } else if (op == 7) {  // connectivity m nt t.. ns s..
      const int m = *cfg++;
      std::vector<std::string> t, s;
      for (int n = *cfg++; n; --n) t.push_back(kTrack[*cfg++]);
      for (int n = *cfg++; n; --n) s.push_back(kShot[*cfg++]);
      const auto c = ms[m].GetAllPairsConnectivity(s, t);
      *out++ = c.size();
      for (int a = 0; a < NS; ++a)
        for (int b = 0; b < NS; ++b) {
          const auto it = c.find(std::make_pair(std::string(kShot[a]), std::string(kShot[b])));
          *out++ = it == c.end() ? 0 : it->second;
        }
    } else if (op == 8) {  // tracks up to their names: for every feature, the first feature of its track, and what was observed
      const auto& m = ms[*cfg++];
      *out++ = m.NumTracks();
      std::string name[NS * NF];
      const map::Observation* seen[NS * NF];
      int total = 0;
      for (int k = 0; k < NS * NF; ++k) seen[k] = nullptr;
      for (const auto& t : m.GetTrackIds())
        for (const auto& so : m.GetTrackObservations(t)) {
          const int k = at(kShot, NS, so.first) * NF + so.second.feature_id;
          name[k] = t;
          seen[k] = &so.second;
          ++total;
        }
      *out++ = total;
      for (int k = 0; k < NS * NF; ++k) {
        int j = 0;
        while (seen[k] && name[j] != name[k]) ++j;
        *out++ = seen[k] ? j : -1;
        if (seen[k]) put(*seen[k], out);
      }
    } else if (op == 10) {  // count tracks per shot: m nt t.. ns s..
      const int m = *cfg++;
      std::vector<std::string> t, s;
      for (int n = *cfg++; n; --n) t.push_back(kTrack[*cfg++]);
      for (int n = *cfg++; n; --n) s.push_back(kShot[*cfg++]);
      const auto c = sfm::tracks_helpers::CountTracksPerShot(ms[m], s, t);
      *out++ = c.size();
      for (int a = 0; a < NS; ++a) { const auto it = c.find(kShot[a]); *out++ = it == c.end() ? -1 : it->second; }
    } else if (op == 11 || op == 12) {  // add / remove connections: m s nt t..
      const int m = *cfg++, s = *cfg++;
      std::vector<std::string> t;
      for (int n = *cfg++; n; --n) t.push_back(kTrack[*cfg++]);
      if (op == 11) sfm::tracks_helpers::AddConnections(ms[m], kShot[s], t);
      else sfm::tracks_helpers::RemoveConnections(ms[m], kShot[s], t);
    }
  }
  return out - start;
}
// cfg: n elements, k unions, pairs.  out: for every element the smallest element of its cluster, then for every element the result of Find (smallest with the same root)
VF(clusters) {
  const int n = cfg[0], k = cfg[1];
  std::vector<std::unique_ptr<UnionFindElement<int>>> e;
  for (int i = 0; i < n; ++i) e.emplace_back(new UnionFindElement<int>(i));
  for (int i = 0; i < k; ++i) Union(e[cfg[2 + 2 * i]].get(), e[cfg[3 + 2 * i]].get());
  const auto c = GetUnionFindClusters(&e);
  for (int i = 0; i < 2 * n + 2; ++i) out[i] = -1;
  size_t last = 0;
  bool sorted = true;
  int total = 0;
  for (const auto& v : c) {
    sorted = sorted && v.size() >= last;
    last = v.size();
    int lo = n;
    for (const auto* x : v) { lo = x->data < lo ? x->data : lo; ++total; }
    for (const auto* x : v) out[x->data] = lo;
  }
  for (int i = 0; i < n; ++i) {
    int j = 0;
    while (Find(e[j].get()) != Find(e[i].get())) ++j;
    out[n + i] = j;
  }
  out[2 * n] = sorted;
  out[2 * n + 1] = total;
  return 0;
}

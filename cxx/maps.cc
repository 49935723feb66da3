// map::Map: a script of operations, then what the map holds as seen from shots, landmarks, rig instances and tracks.
#include "rt.h"
#include "vf.h"
#include "pose.cc"
#include <geo/src/geo.cc>
#include <geometry/src/camera.cc>
#include <foundation/src/newton_raphson.cc>
#include <map/src/rig.cc>
#include <map/src/shot.cc>
#include <map/src/observation.cc>
#include <map/src/landmark.cc>
#include <map/src/dataviews.cc>
#include <map/src/map.cc>
#include <map/src/tracks_manager.cc>
using namespace map;
static const char* kShot[] = {"S0", "S1", "S2", "S3", "none"};
static const char* kLm[] = {"L0", "L1", "L2", "none"};
static const char* kCam[] = {"C0", "C1", "none"};
static const char* kRc[] = {"R0", "R1", "none"};
static const char* kInst[] = {"I0", "I1", "I2", "I3", "none"};
enum { NS = 4, NL = 3, NF = 6, NI = 4 };
static int at(const char* const* t, int n, const std::string& s) {
  for (int i = 0; i < n; ++i) if (s == t[i]) return i;
  return -1;
}
static void puto(const Observation& o, double*& out) { *out++ = o.point(0); *out++ = o.point(1); *out++ = o.scale; *out++ = o.feature_id; *out++ = o.color(0); }
static Pose shift(const double* v) { return Pose(Vec3d(0, 0, 0), Vec3d(v[0], v[1], v[2])); }
static void base(Map& m, const double* in) {
  for (int c = 0; c < 2; ++c) {
    Camera cam = Camera::CreatePerspectiveCamera(0.5 + c, 0, 0);
    cam.id = kCam[c];
    cam.width = 100 + c;
    m.CreateCamera(cam);
    m.SetBias(kCam[c], Similarity(Vec3d(0, 0, 0), Vec3d(in[3 * c], in[3 * c + 1], in[3 * c + 2]), 2.0 + c));
  }
  m.CreateRigCamera(RigCamera(Pose(), kRc[0]));
  m.CreateRigCamera(RigCamera(shift(in + 6), kRc[1]));
  m.SetTopocentricConverter(in[9], in[10], in[11]);
}
static void shots(Map& m, bool pano, double*& out) {
  auto& all = pano ? m.GetPanoShots() : m.GetShots();
  *out++ = all.size();
  for (int s = 0; s < NS; ++s) {
    const bool has = pano ? m.HasPanoShot(kShot[s]) : m.HasShot(kShot[s]);
    *out++ = has;
    if (!has) continue;
    Shot& h = pano ? m.GetPanoShot(kShot[s]) : m.GetShot(kShot[s]);
    *out++ = at(kShot, NS, h.id_);
    *out++ = at(kCam, 2, h.GetCamera()->id);
    *out++ = h.GetCamera() == &m.GetCamera(h.GetCamera()->id);
    *out++ = at(kRc, 2, h.GetRigCameraId());
    *out++ = h.GetRigCamera() == &m.GetRigCamera(h.GetRigCameraId());
    *out++ = at(kInst, NI, h.GetRigInstanceId());
    *out++ = h.GetRigInstance() == &m.GetRigInstance(h.GetRigInstanceId());
    const Mat4d w = h.GetPose()->WorldToCamera();
    for (int i = 0; i < 3; ++i) *out++ = w(i, 3);
    *out++ = h.merge_cc;
    *out++ = h.scale;
    *out++ = h.GetShotMeasurements().gps_position_.HasValue();
    if (h.GetShotMeasurements().gps_position_.HasValue()) for (int i = 0; i < 3; ++i) *out++ = h.GetShotMeasurements().gps_position_.Value()[i];
    *out++ = h.GetLandmarkObservations().size();
    *out++ = h.ComputeValidLandmarks().size();
    for (int l = 0; l < NL; ++l) {
      int n = 0;
      for (const auto& k : h.GetLandmarkObservations()) {
        if (k.first->id_ != kLm[l]) continue;
        ++n;
        *out++ = m.HasLandmark(kLm[l]) && k.first == &m.GetLandmark(kLm[l]);
        puto(k.second, out);
        puto(*h.GetLandmarkObservation(k.first), out);
      }
      *out++ = n;
    }
    for (int f = 0; f < NF; ++f) {
      Landmark* l = h.GetObservationLandmark(f);
      *out++ = l ? at(kLm, NL, l->id_) : -1;
      if (l) puto(h.GetObservation(f), out);
    }
  }
}
static void measure(ShotMeasurements& q, int k, const double* p, int s) {
  q = ShotMeasurements();
  if (k & 1) q.capture_time_.SetValue(p[0]);
  if (k & 2) q.gps_position_.SetValue(v3(p));
  if (k & 4) q.gps_accuracy_.SetValue(p[1]);
  if (k & 8) q.compass_accuracy_.SetValue(p[2]);
  if (k & 16) q.compass_angle_.SetValue(p[0] + p[1]);
  if (k & 32) q.gravity_down_.SetValue(v3(p) * 2.0);
  if (k & 64) q.opk_accuracy_.SetValue(p[0] - p[1]);
  if (k & 128) q.opk_angles_.SetValue(v3(p) * 3.0);
  if (k & 256) q.orientation_.SetValue(3 + s);
  if (k & 512) q.sequence_key_.SetValue("key");
  if (k & 1024) q.SetAttributes({{"a", "b"}, {"c", "d"}});
}
// cfg: commands, ended by -1; in: 12 values of the base, then payloads of 3
VF(script) {
  std::vector<std::unique_ptr<Map>> ms;
  Map* m = nullptr;
  double* const start = out;
  const double* v = in + 12;
  for (;;) {
    const int op = *cfg++;
    if (op < 0) break;
    switch (op) {
      case 20: ms.clear(); ms.emplace_back(new Map()); m = ms.back().get(); base(*m, in); break;
      case 21: m = ms[*cfg++].get(); break;
      case 0: {  // create shot s camera rig-camera instance payload pano
        if (!m->HasRigInstance(kInst[cfg[3]])) m->CreateRigInstance(kInst[cfg[3]]);
        for (int r = 0; r < 2; ++r)  // a deep copy has the rig cameras of its shots
          if (!m->HasRigCamera(kRc[r])) m->CreateRigCamera(RigCamera(r ? shift(in + 6) : Pose(), kRc[r]));
        Shot& s = cfg[5] ? m->CreatePanoShot(kShot[cfg[0]], kCam[cfg[1]], kRc[cfg[2]], kInst[cfg[3]], shift(v + 3 * cfg[4]))
                         : m->CreateShot(kShot[cfg[0]], kCam[cfg[1]], kRc[cfg[2]], kInst[cfg[3]], shift(v + 3 * cfg[4]));
        s.merge_cc = 7 + cfg[0];
        s.scale = v[3 * cfg[4]];
        if (cfg[0] % 2) s.GetShotMeasurements().gps_position_.SetValue(v3(v + 3 * cfg[4]));
        cfg += 6;
        break;
      }
      case 1: m->RemoveShot(kShot[*cfg++]); break;
      case 2: {
        Landmark& l = m->CreateLandmark(kLm[cfg[0]], v3(v + 3 * cfg[1]));
        l.SetColor(Vec3i(1 + cfg[0], 2, 3));
        cfg += 2;
        break;
      }
      case 3: m->RemoveLandmark(kLm[*cfg++]); break;
      case 4: {  // observe s l f payload
        const double* p = v + 3 * cfg[3];
        const Observation o(p[0], p[1], p[2], 60 + cfg[2], 0, 0, cfg[2]);
        m->AddObservation(kShot[cfg[0]], kLm[cfg[1]], o);
        Eigen::VectorXd e(2);
        e << p[0], p[1];
        auto errors = m->GetLandmark(kLm[cfg[1]]).GetReprojectionErrors();
        errors[kShot[cfg[0]]] = e;
        m->GetLandmark(kLm[cfg[1]]).SetReprojectionErrors(errors);
        cfg += 4;
        break;
      }
      case 5: m->RemoveObservation(kShot[cfg[0]], kLm[cfg[1]]); cfg += 2; break;
      case 6: m->ClearObservationsAndLandmarks(); break;
      case 7: m->CleanLandmarksBelowMinObservations(*cfg++); break;
      case 8: ms.push_back(Map::DeepCopy(*m, *cfg++)); m = ms.back().get(); break;
      case 9: m->RemovePanoShot(kShot[*cfg++]); break;
      case 10: m->RemoveLandmark(&m->GetLandmark(kLm[*cfg++])); break;
      case 11: m->RemoveRigInstance(kInst[*cfg++]); break;
      case 14: {  // update shot s: payload, from another map
        Map other;
        base(other, in);
        other.CreateRigInstance(kInst[cfg[1]]);
        Shot& o = other.CreateShot(kShot[cfg[0]], kCam[0], kRc[0], kInst[cfg[1]], shift(v + 3 * cfg[2]));
        o.merge_cc = 99;
        o.scale = v[3 * cfg[2] + 1];
        measure(o.GetShotMeasurements(), cfg[3], v + 3 * cfg[2], cfg[0]);
        m->UpdateShot(o);
        cfg += 4;
        break;
      }
      case 16: {  // measurements of a shot: s, set of them, payload
        Shot& h = m->HasShot(kShot[cfg[0]]) ? m->GetShot(kShot[cfg[0]]) : m->GetPanoShot(kShot[cfg[0]]);
        measure(h.GetShotMeasurements(), cfg[1], v + 3 * cfg[2], cfg[0]);
        cfg += 3;
        break;
      }
      case 17: {  // the measurements of all shots
        for (int s = 0; s < NS; ++s) {
          const bool pano = !m->HasShot(kShot[s]);
          if (pano && !m->HasPanoShot(kShot[s])) continue;
          const ShotMeasurements& q = pano ? m->GetPanoShot(kShot[s]).GetShotMeasurements() : m->GetShot(kShot[s]).GetShotMeasurements();
          for (const auto* d : {&q.capture_time_, &q.gps_accuracy_, &q.compass_accuracy_, &q.compass_angle_, &q.opk_accuracy_}) {
            *out++ = d->HasValue();
            *out++ = d->HasValue() ? d->Value() : 0.0;
          }
          for (const auto* d : {&q.gps_position_, &q.gravity_down_, &q.opk_angles_}) {
            *out++ = d->HasValue();
            for (int i = 0; i < 3; ++i) *out++ = d->HasValue() ? d->Value()[i] : 0.0;
          }
          *out++ = q.orientation_.HasValue() ? q.orientation_.Value() : -1;
          *out++ = q.sequence_key_.HasValue() ? q.sequence_key_.Value() == "key" : -1;
          *out++ = q.attributes_.size();
          *out++ = q.attributes_.count("a") && q.attributes_.at("a") == "b" && q.attributes_.count("c") && q.attributes_.at("c") == "d";
        }
        break;
      }
      case 18: {  // all of a rig instance's shots from another map: two shots of instance s, update pano or shot a
        Map other;
        base(other, in);
        other.CreateRigInstance(kInst[cfg[0]]);
        const bool pano = cfg[4];
        for (int r = 0; r < 2; ++r) {
          Shot& o = pano ? other.CreatePanoShot(kShot[cfg[1 + r]], kCam[r], kRc[r], kInst[cfg[0]], shift(v + 3 * cfg[3]))
                         : other.CreateShot(kShot[cfg[1 + r]], kCam[r], kRc[r], kInst[cfg[0]], shift(v + 3 * cfg[3]));
          o.merge_cc = 50 + r;
          o.scale = v[3 * cfg[3] + r];
        }
        if (pano) m->UpdatePanoShot(other.GetPanoShot(kShot[cfg[1]])); else m->UpdateShot(other.GetShot(kShot[cfg[1]]));
        cfg += 5;
        break;
      }
      case 12: {
        const bool errors = *cfg++;
        *out++ = m->NumberOfShots(); *out++ = m->NumberOfLandmarks(); *out++ = m->NumberOfPanoShots();
        shots(*m, false, out);
        shots(*m, true, out);
        for (int l = 0; l < NL; ++l) {
          *out++ = m->HasLandmark(kLm[l]);
          if (!m->HasLandmark(kLm[l])) continue;
          const Landmark& k = m->GetLandmark(kLm[l]);
          *out++ = k.NumberOfObservations();
          for (int i = 0; i < 3; ++i) *out++ = k.GetGlobalPos()[i];
          for (int i = 0; i < 3; ++i) *out++ = k.GetColor()[i];
          for (int s = 0; s < NS; ++s) {
            int n = 0;
            for (const auto& o : k.GetObservations()) {
              if (o.first->id_ != kShot[s]) continue;
              ++n;
              const bool mine = (m->HasShot(kShot[s]) && o.first == &m->GetShot(kShot[s])) || (m->HasPanoShot(kShot[s]) && o.first == &m->GetPanoShot(kShot[s]));
              *out++ = mine;
              *out++ = o.second;
              *out++ = mine ? k.GetObservationIdInShot(o.first) : -7;
            }
            *out++ = n;
            if (!errors) continue;
            const auto e = k.GetReprojectionErrors();
            const auto it = e.find(kShot[s]);
            *out++ = it != e.end();
            if (it != e.end()) { *out++ = it->second[0]; *out++ = it->second[1]; }
          }
        }
        for (int i = 0; i < NI; ++i) {
          *out++ = m->HasRigInstance(kInst[i]);
          if (!m->HasRigInstance(kInst[i])) continue;
          auto& r = m->GetRigInstance(kInst[i]);
          *out++ = at(kInst, NI, r.id);
          *out++ = r.NumberOfShots();
          *out++ = r.GetShotIDs().size();
          for (int s = 0; s < NS; ++s) {
            const auto a = r.GetShots().find(kShot[s]);
            const auto b = r.GetRigCameras().find(kShot[s]);
            *out++ = a != r.GetShots().end() && ((m->HasShot(kShot[s]) && a->second == &m->GetShot(kShot[s])) || (m->HasPanoShot(kShot[s]) && a->second == &m->GetPanoShot(kShot[s])));
            *out++ = b != r.GetRigCameras().end() ? at(kRc, 2, b->second->id) : -1;
          }
        }
        *out++ = m->NumberOfCameras(); *out++ = m->NumberOfBiases();
        for (int c = 0; c < 2; ++c) {
          *out++ = m->HasCamera(kCam[c]) && m->GetCamera(kCam[c]).id == kCam[c];
          *out++ = m->GetCamera(kCam[c]).GetParameterValue(Camera::Parameters::Focal);
          *out++ = m->GetCamera(kCam[c]).width;
          for (int i = 0; i < 3; ++i) *out++ = m->GetBias(kCam[c]).Translation()[i];
          *out++ = m->GetBias(kCam[c]).Scale();
        }
        const Vec3d lla = m->GetTopocentricConverter().GetLlaRef();
        for (int i = 0; i < 3; ++i) *out++ = lla[i];
        break;
      }
      case 13: {
        const TracksManager t = m->ToTracksManager();
        *out++ = t.NumShots(); *out++ = t.NumTracks();
        for (int s = 0; s < NS; ++s) {
          *out++ = t.HasShotObservations(kShot[s]);
          if (!t.HasShotObservations(kShot[s])) continue;
          const auto& o = t.GetShotObservations(kShot[s]);
          *out++ = o.size();
          for (int l = 0; l < NL; ++l) {
            const auto it = o.find(kLm[l]);
            *out++ = it != o.end();
            if (it != o.end()) puto(it->second, out);
          }
        }
        break;
      }
      case 15: {  // what of a tracks manager of all shots and landmarks concerns the map: normalised errors, valid observations
        TracksManager t;
        for (int s = 0; s < NS; ++s)
          for (int l = 0; l < NL; ++l) if ((s + l) % 3 != 2) {
            const double* p = v + 3 * ((s + l) % 4);
            t.AddObservation(kShot[s], kLm[l], Observation(p[0], p[1], p[2], 0, 0, 0, l));
          }
        const auto ok = m->GetValidObservations(t);
        const auto px = m->ComputeReprojectionErrors(t, Map::Pixel), nm = m->ComputeReprojectionErrors(t, Map::Normalized), an = m->ComputeReprojectionErrors(t, Map::Angular);
        *out++ = ok.size(); *out++ = px.size(); *out++ = nm.size(); *out++ = an.size();
        for (int s = 0; s < NS; ++s) {
          *out++ = ok.count(kShot[s]);
          if (!ok.count(kShot[s])) continue;
          *out++ = ok.at(kShot[s]).size(); *out++ = px.at(kShot[s]).size(); *out++ = nm.at(kShot[s]).size(); *out++ = an.at(kShot[s]).size();
          for (int l = 0; l < NL; ++l) {
            *out++ = ok.at(kShot[s]).count(kLm[l]);
            if (!ok.at(kShot[s]).count(kLm[l])) continue;
            puto(ok.at(kShot[s]).at(kLm[l]), out);
            for (const auto* e : {&px, &nm, &an}) { *out++ = e->at(kShot[s]).at(kLm[l])[0]; *out++ = e->at(kShot[s]).at(kLm[l])[1]; }
          }
        }
        break;
      }
    }
  }
  return out - start;
}

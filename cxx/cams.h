#pragma once
#include <geometry/src/camera.cc>
#include <foundation/src/newton_raphson.cc>
using namespace geometry;
static const int NP[10] = {3, 9, 3, 8, 12, 16, 0, 4, 6, 5};
static VecXd vec(const double* p, int n) { VecXd v(n); for (int i = 0; i < n; ++i) v[i] = p[i]; return v; }
// factory inputs: [transition] focal [aspect_ratio cx cy] distortion...
static Camera make(int t, const double* p) {
  switch (t) {
    case 0: return Camera::CreatePerspectiveCamera(p[0], p[1], p[2]);
    case 1: return Camera::CreateBrownCamera(p[0], p[1], Vec2d(p[2], p[3]), vec(p + 4, 5));
    case 2: return Camera::CreateFisheyeCamera(p[0], p[1], p[2]);
    case 3: return Camera::CreateFisheyeOpencvCamera(p[0], p[1], Vec2d(p[2], p[3]), vec(p + 4, 4));
    case 4: return Camera::CreateFisheye62Camera(p[0], p[1], Vec2d(p[2], p[3]), vec(p + 4, 8));
    case 5: return Camera::CreateFisheye624Camera(p[0], p[1], Vec2d(p[2], p[3]), vec(p + 4, 12));
    case 6: return Camera::CreateSphericalCamera();
    case 7: return Camera::CreateDualCamera(p[0], p[1], p[2], p[3]);
    case 8: return Camera::CreateRadialCamera(p[0], p[1], Vec2d(p[2], p[3]), Vec2d(p[4], p[5]));
    default: return Camera::CreateSimpleRadialCamera(p[0], p[1], Vec2d(p[2], p[3]), p[4]);
  }
}

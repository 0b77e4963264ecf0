// Stand-in for the GTSAM header of this name: preintegration that records what it is given, and like GTSAM refuses a time step
// that is not positive.
#pragma once
#include <gtsam/navigation/PreintegrationParams.h>
#include <stdexcept>
namespace gtsam {
struct PreintegratedCombinedMeasurements {
    double time = 0, acceleration[3] = {0, 0, 0}, rate[3] = {0, 0, 0};  // integrals over the time covered so far
    void integrateMeasurement(const Vector3& a, const Vector3& w, const double dt) {
        if (dt <= 0) throw std::runtime_error("PreintegratedCombinedMeasurements::integrateMeasurement: dt <=0");
        time += dt;
        for (int i = 0; i < 3; ++i) {
            acceleration[i] += a[i] * dt;
            rate[i] += w[i] * dt;
        }
    }
};
}

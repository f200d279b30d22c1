// P16: window functions and stereo matching costs.
#include <functional>
#include <opencv2/core.hpp>
#include <serpent/front_end/stereo/stereo_cost_functions.hpp>
#include <serpent/front_end/stereo/window_functions.hpp>

#include "gen.hpp"

namespace {
// an image that may be a view into a larger one (so rows are not contiguous)
cv::Mat image(pbt::Src& s, int rows, int cols) {
    const bool view = s.boolean();
    const int m = view ? 3 : 0;
    cv::Mat big(rows + 2 * m, cols + 2 * m, CV_8U);
    const uint64_t style = s.draw(3);
    uint64_t st = s.draw(UINT64_MAX);
    const int base = static_cast<int>(s.draw(255));
    for (int r = 0; r < big.rows; ++r) for (int c = 0; c < big.cols; ++c) {
        int v;
        switch (style) {
            case 0: v = base; break;
            case 1: v = (base + static_cast<int>(pbt::splitmix(st) % 4)) & 255; break;
            case 2: v = pbt::splitmix(st) % 2 ? 255 : 0; break;
            default: v = static_cast<int>(pbt::splitmix(st) % 256); break;
        }
        big.at<unsigned char>(r, c) = static_cast<unsigned char>(v);
    }
    return view ? big(cv::Rect(m, m, cols, rows)) : big;
}
struct Setup { cv::Mat a, b; cv::Point2i pa, pb; cv::Size w; std::vector<double> va, vb; };
Setup setup(pbt::Src& s) {
    Setup u;
    u.w = cv::Size(static_cast<int>(s.size(1, 12)), static_cast<int>(s.size(1, 12)));
    if (s.chance(1, 60)) {  // large windows: totals beyond 16 bits, squares beyond 31 bits
        if (s.chance(1, 6)) u.w = cv::Size(static_cast<int>(s.integer(180, 260)), static_cast<int>(s.integer(180, 260)));
        else u.w = cv::Size(static_cast<int>(s.integer(13, 60)), static_cast<int>(s.integer(13, 60)));
    } else if (s.chance(1, 60)) {  // long and thin
        u.w = cv::Size(1, static_cast<int>(s.integer(200, 700)));
        if (s.boolean()) std::swap(u.w.width, u.w.height);
    }
    const int ra = u.w.height + static_cast<int>(s.draw(6)), ca = u.w.width + static_cast<int>(s.draw(6));
    const int rb = u.w.height + static_cast<int>(s.draw(6)), cb = u.w.width + static_cast<int>(s.draw(6));
    u.a = image(s, ra, ca);
    u.pa = cv::Point2i(static_cast<int>(s.draw(ca - u.w.width)), static_cast<int>(s.draw(ra - u.w.height)));
    u.b = image(s, rb, cb);
    u.pb = cv::Point2i(static_cast<int>(s.draw(cb - u.w.width)), static_cast<int>(s.draw(rb - u.w.height)));
    if (s.chance(1, 4)) {  // identical windows, possibly scaled or shifted
        const int mode = static_cast<int>(s.draw(2));
        u.b = u.b.clone();
        for (int r = 0; r < u.w.height; ++r) for (int c = 0; c < u.w.width; ++c) {
            int v = u.a.at<unsigned char>(u.pa.y + r, u.pa.x + c);
            if (mode == 1) v = std::min(255, v + 7);
            if (mode == 2) v = v / 2;
            u.b.at<unsigned char>(u.pb.y + r, u.pb.x + c) = static_cast<unsigned char>(v);
        }
    }
    for (int r = 0; r < u.w.height; ++r) for (int c = 0; c < u.w.width; ++c) {
        u.va.push_back(u.a.ptr<unsigned char>(u.pa.y + r)[u.pa.x + c]);
        u.vb.push_back(u.b.ptr<unsigned char>(u.pb.y + r)[u.pb.x + c]);
    }
    s.note() << "window " << u.w << " at " << u.pa << " and " << u.pb << " in " << u.a.size() << ", " << u.b.size();
    s.nontrivial(u.w.area() > 1 && u.va != u.vb);
    return u;
}
double sum(const std::vector<double>& v) { double t = 0; for (double x : v) t += x; return t; }
double sumsq(const std::vector<double>& v) { double t = 0; for (double x : v) t += x * x; return t; }
}

PROPERTY(windows, 40000, 800000, "a window of more than one pixel with differing contents") {
    const Setup u = setup(s);
    const double n = static_cast<double>(u.va.size());
    CHECK(serpent::window_sum(u.a, u.pa, u.w) == sum(u.va), "sum ", serpent::window_sum(u.a, u.pa, u.w), " expected ", sum(u.va));
    CHECK(pbt::near(serpent::window_mean(u.a, u.pa, u.w), sum(u.va) / n, 1e-10), "mean");
    CHECK(pbt::near(serpent::window_sum_squares(u.a, u.pa, u.w), sumsq(u.va), 1e-6), "sum of squares");
}

PROPERTY(costs, 40000, 800000, "a window of more than one pixel with differing contents") {
    using namespace serpent;
    const Setup u = setup(s);
    const std::size_t n = u.va.size();
    const double N = static_cast<double>(n), ma = sum(u.va) / N, mb = sum(u.vb) / N, qa = sumsq(u.va), qb = sumsq(u.vb);
    double sad = 0, ssd = 0, zsad = 0, lsad = 0, cc = 0;
    for (std::size_t i = 0; i < n; ++i) {
        sad += std::abs(u.va[i] - u.vb[i]);
        ssd += (u.va[i] - u.vb[i]) * (u.va[i] - u.vb[i]);
        zsad += std::abs((u.va[i] - ma) - (u.vb[i] - mb));
        if (mb > 0) lsad += std::abs(u.va[i] - ma / mb * u.vb[i]);
        cc += u.va[i] * u.vb[i];
    }
    const double tol = 1e-8 * (1 + N * 255);
    auto eq = [&](double got, double want, const char* what) { CHECK(std::abs(got - want) <= tol, what, " got ", got, " expected ", want); };
    eq(sum_of_absolute_differences(u.a, u.b, u.pa, u.pb, u.w), sad, "absolute differences");
    eq(sum_of_squared_differences(u.a, u.b, u.pa, u.pb, u.w), ssd, "squared differences");
    eq(zero_mean_sum_of_absolute_differences(u.a, u.b, u.pa, u.pb, u.w), zsad, "zero-mean absolute differences");
    eq(zero_mean_sum_of_absolute_differences(u.a, u.b, u.pa, u.pb, u.w, ma), zsad, "zero-mean absolute differences with mean");
    if (mb > 0) {
        eq(locally_scaled_sum_of_absolute_differences(u.a, u.b, u.pa, u.pb, u.w), lsad, "locally scaled");
        eq(locally_scaled_sum_of_absolute_differences(u.a, u.b, u.pa, u.pb, u.w, ma), lsad, "locally scaled with mean");
    }
    if (qa > 0 && qb > 0) {
        const double ncc = -cc / std::sqrt(qa * qb);
        eq(negative_normalised_cross_correlation(u.a, u.b, u.pa, u.pb, u.w), ncc, "normalised cross-correlation");
        eq(negative_normalised_cross_correlation(u.a, u.b, u.pa, u.pb, u.w, qa), ncc, "normalised cross-correlation with squares");
        CHECK(negative_normalised_cross_correlation(u.a, u.b, u.pa, u.pb, u.w) >= -1.0 - 1e-9, "bounded below by -1");
        eq(negative_normalised_cross_correlation(u.a, u.a, u.pa, u.pa, u.w), -1.0, "identical windows");
    }
    eq(sum_of_absolute_differences(u.a, u.a, u.pa, u.pa, u.w), 0, "identical windows");
    eq(sum_of_squared_differences(u.a, u.a, u.pa, u.pa, u.w), 0, "identical windows");
    eq(zero_mean_sum_of_absolute_differences(u.a, u.a, u.pa, u.pa, u.w), 0, "identical windows");
    if (ma > 0) eq(locally_scaled_sum_of_absolute_differences(u.a, u.a, u.pa, u.pa, u.w), 0, "identical windows");
}

PROPERTY(within_image, 40000, 800000, "a window touching or crossing an image border") {
    const int rows = static_cast<int>(s.size(1, 20)), cols = static_cast<int>(s.size(1, 20));
    const cv::Mat m(rows, cols, CV_8U, cv::Scalar(0));
    const cv::Size w(static_cast<int>(s.size(1, 20)), static_cast<int>(s.size(1, 20)));
    const cv::Point2i p(static_cast<int>(s.integer(-5, 20)), static_cast<int>(s.integer(-5, 20)));
    bool inside = true;
    for (int r : {p.y, p.y + w.height - 1}) for (int c : {p.x, p.x + w.width - 1}) inside = inside && r >= 0 && r < rows && c >= 0 && c < cols;
    s.nontrivial(p.x <= 0 || p.y <= 0 || p.x + w.width >= cols || p.y + w.height >= rows);
    s.note() << "image " << m.size() << " window " << w << " at " << p;
    CHECK(serpent::window_within_image(m, p, w) == inside, "inside is ", inside);
}

PROPERTY(image_type_checked, 1000, 10000, "an image that is not 8-bit single channel") {
    using namespace serpent;
    const cv::Mat good(6, 6, CV_8U, cv::Scalar(9));
    const int type = s.pick<int>({CV_8S, CV_16U, CV_16S, CV_32S, CV_32F, CV_64F, CV_8UC3});
    const cv::Mat bad(6, 6, type, cv::Scalar::all(3));
    s.nontrivial();
    const cv::Point2i o(0, 0);
    const cv::Size w(2, 2);
    for (int which = 0; which < 2; ++which) {
        const cv::Mat& a = which ? good : bad;
        const cv::Mat& b = which ? bad : good;
        CHECK_THROWS(sum_of_absolute_differences(a, b, o, o, w));
        CHECK_THROWS(sum_of_squared_differences(a, b, o, o, w));
        CHECK_THROWS(zero_mean_sum_of_absolute_differences(a, b, o, o, w));
        CHECK_THROWS(zero_mean_sum_of_absolute_differences(a, b, o, o, w, 1.0));
        CHECK_THROWS(locally_scaled_sum_of_absolute_differences(a, b, o, o, w));
        CHECK_THROWS(locally_scaled_sum_of_absolute_differences(a, b, o, o, w, 1.0));
        CHECK_THROWS(negative_normalised_cross_correlation(a, b, o, o, w));
        CHECK_THROWS(negative_normalised_cross_correlation(a, b, o, o, w, 1.0));
    }
}

// P06 field editing, P07 typed access and statistics, P08 (value filter), P09 de-skewing: pct:: on binary clouds.
#include "cloud2.hpp"
#include <pointcloud_tools/pclpointcloud2_utilities.hpp>
using namespace vh;
using T = F2::PointFieldTypes;

static Ev start(const std::string& op, const C2& c) { return Ev(op).raw("in", c2::json(c)); }
template<class F> static bool guarded(F f) { return threw(f); }

template<class F> static void with_type(int t, F f) {
    switch (t) {
        case 1: f(std::integral_constant<std::uint8_t, F2::INT8>{}); break;
        case 2: f(std::integral_constant<std::uint8_t, F2::UINT8>{}); break;
        case 3: f(std::integral_constant<std::uint8_t, F2::INT16>{}); break;
        case 4: f(std::integral_constant<std::uint8_t, F2::UINT16>{}); break;
        case 5: f(std::integral_constant<std::uint8_t, F2::INT32>{}); break;
        case 6: f(std::integral_constant<std::uint8_t, F2::UINT32>{}); break;
        case 7: f(std::integral_constant<std::uint8_t, F2::FLOAT32>{}); break;
        case 8: f(std::integral_constant<std::uint8_t, F2::FLOAT64>{}); break;
    }
}
static std::string some_name(Rng& r, const C2& c) {
    if (r.chance(12) || c.fields.empty()) return r.pick(std::vector<std::string>{"absent", "X", "ti", "", "xx"});
    return r.pick(c.fields).name;
}
static bool in_range(double v, int t) { return t >= 7 || (v >= c2::lim_lo(t) && v <= c2::lim_hi(t)); }
static double val(const C2& c, const F2& f, std::size_t i) { std::string s = c2::value(c, f, i); return std::strtod(s.c_str() + 1, nullptr); }
static bool all_in_range(const C2& c, const F2& f, double scale, int t) {
    for (std::size_t i = 0; i < std::size_t(c.width) * c.height; ++i) if (!in_range(val(c, f, i) * scale, t)) return false;
    return true;
}

// One cloud, edited by a sequence of operations; the whole cloud is recorded after each.
static void edits(Rng& r) {
    C2 c = c2::random_cloud(r);
    Ev("cloud").raw("out", c2::json(c)).emit();
    const int n = r.range(2, 7);
    for (int k = 0; k < n; ++k) {
        switch (r.range(0, 9)) {
            case 0: case 1: {
                std::vector<std::string> names;
                const int m = r.range(1, 3);
                for (int i = 0; i < m; ++i) names.push_back("new" + std::to_string(k) + std::to_string(i));
                const int t = r.range(1, 8), cnt = r.chance(70) ? 1 : r.range(2, 3);
                C2 d;
                const bool single = m == 1 && r.chance(50);
                note("add_fields");
                const bool e = guarded([&] { d = single ? pct::add_field(c, names[0], T(t), cnt) : pct::add_fields(c, names, T(t), cnt); });
                Ev("addfields").raw("names", list(names, str)).i("type", t).i("count", cnt).b("exc", e).raw("src", c2::json(c)).raw("out", c2::json(d)).emit();
                if (e) return;
                c = d;
                break;
            }
            case 2: {
                if (c2::find(c, "ux") || c2::find(c, "uy") || c2::find(c, "uz")) break;  // names would be ambiguous
                C2 d;
                note("add_unit_vectors");
                const bool e = guarded([&] { d = pct::add_unit_vectors(c); });
                Ev("addunit").b("exc", e).raw("src", c2::json(c)).raw("out", c2::json(d))
                    .raw("x", c2::values(c, "x")).raw("y", c2::values(c, "y")).raw("z", c2::values(c, "z"))
                    .raw("u", [&] { if (e) return std::string("[]"); std::string s; const std::size_t np = std::size_t(d.width) * d.height, nf = d.fields.size();
                        s = "["; for (std::size_t i = 0; i < np; ++i) { if (i) s += ","; s += "[" + c2::value(d, d.fields[nf - 3], i) + "," + c2::value(d, d.fields[nf - 2], i) + "," + c2::value(d, d.fields[nf - 1], i) + "]"; }
                        return s + "]"; }()).emit();
                if (e) break;
                c = d;
                break;
            }
            case 3: case 4: {
                const std::string from = some_name(r, c), to = r.pick(std::vector<std::string>{"t", "time", "q", "x", "intensity"});
                if (c2::find(c, to) && to != from) break;  // would make names ambiguous
                note("change_field_name");
                const bool e = guarded([&] { pct::change_field_name(c, from, to); });
                Ev("rename").t("from", from).t("to", to).b("exc", e).raw("out", c2::json(c)).emit();
                break;
            }
            case 5: case 6: {
                const std::string n = some_name(r, c);
                const F2* f = c2::find(c, n);
                const int t = f && r.chance(70) ? (f->datatype == 8 ? 8 : c2::size_of(f->datatype) == 4 ? r.range(5, 7) : c2::size_of(f->datatype) == 2 ? r.range(3, 4) : r.range(1, 2)) : r.range(1, 8);
                if (f && f->count != 1) break;
                if (f && !all_in_range(c, *f, 1.0, t)) break;
                const std::string was = c2::values(c, n);
                note("cast_field");
                bool e = false;
                with_type(t, [&](auto tt) { e = guarded([&] { pct::cast_field<decltype(tt)::value>(c, n); }); });
                Ev("cast").t("name", n).i("type", t).d("scale", 1.0).b("scaled", false).b("exc", e).raw("was", was).raw("now", c2::values(c, n)).raw("out", c2::json(c)).emit();
                break;
            }
            case 7: case 8: {
                const std::string n = some_name(r, c);
                const F2* f = c2::find(c, n);
                const double s = r.pick(std::vector<double>{1e-9, 1e-3, 2.0, 0.5, 1.0, -1.0, 10.0, 0.0, 1.5});
                const int t = f && r.chance(80) ? (f->datatype == 8 ? 8 : c2::size_of(f->datatype) == 4 ? r.range(5, 7) : c2::size_of(f->datatype) == 2 ? r.range(3, 4) : r.range(1, 2)) : r.range(1, 8);
                if (f && (f->count != 1 || !all_in_range(c, *f, s, t))) break;
                const std::string was = c2::values(c, n);
                note("cast_field_with_scale");
                bool e = false;
                with_type(t, [&](auto tt) { e = guarded([&] { pct::cast_field_with_scale<decltype(tt)::value>(c, n, s); }); });
                Ev("cast").t("name", n).i("type", t).d("scale", s).b("scaled", true).b("exc", e).raw("was", was).raw("now", c2::values(c, n)).raw("out", c2::json(c)).emit();
                break;
            }
            default: {
                const int h = r.chance(30) ? r.range(2, 3) : 1, w = r.range(0, 6 / h);
                note("resize");
                const bool e = guarded([&] { if (h == 1 && r.chance(50)) pct::resize(c, w); else pct::resize(c, w, h); });
                Ev("resize").i("w", w).i("h", h).b("exc", e).raw("out", c2::json(c)).emit();
            }
        }
    }
    std::string names = r.chance(50) ? "t" : some_name(r, c);
    bool ge = false; std::string got = "[]";
    ge = guarded([&] { const C2& cc = c; got = c2::field(pct::get_field(cc, names)); });
    Ev("query").t("name", names).b("has", pct::has_field(c, names)).b("exc", ge).raw("got", got).i("np", pct::size_points(c)).i("nb", pct::size_bytes(c)).b("empty", pct::empty(c))
        .i("rs", pct::row_step(c)).raw("out", c2::json(c)).emit();
}

template<class OutT> static void get_as(Rng& r, const C2& c, const F2& f, const char* name) {
    std::string a = "[", b = "[";
    bool e2 = false;
    const std::size_t n = std::size_t(c.width) * c.height;
    note(std::string("create_get_field_data_function as ") + name);
    const bool e = guarded([&] { auto g = pct::create_get_field_data_function<OutT>(f); for (std::size_t i = 0; i < n; ++i) { if (i) a += ","; a += num(static_cast<double>(g(c, i))); } });
    with_type(f.datatype, [&](auto tt) {
        using S = typename pcl::traits::asType<decltype(tt)::value>::type;
        e2 = guarded([&] { auto g = pct::create_get_field_data_function<OutT, S>(f); for (std::size_t i = 0; i < n; ++i) { if (i) b += ","; b += num(static_cast<double>(g(c, i))); } });
    });
    std::string one = n ? num(static_cast<double>(pct::field_data<OutT>(c, f, n - 1))) : "\"0\"";
    Ev("get").t("as", name).t("name", f.name).i("type", f.datatype).b("exc", e || e2).raw("vals", c2::values(c, f.name)).raw("a", a + "]").raw("b", b + "]").raw("last", one).emit();
    // a field of another type is refused
    const int other = f.datatype % 8 + 1;
    bool e3 = false, e4 = false;
    with_type(other, [&](auto tt) {
        using S = typename pcl::traits::asType<decltype(tt)::value>::type;
        e3 = guarded([&] { pct::create_get_field_data_function<OutT, S>(f); });
        e4 = guarded([&] { pct::create_set_field_data_function<OutT, S>(f); });
    });
    Ev("mismatch").b("exc", e3 && e4).emit();
}
template<class InT> static void set_as(Rng& r, C2& c, const F2& f, const char* name, int in_t) {
    const std::size_t n = std::size_t(c.width) * c.height;
    if (!n) return;
    const std::size_t i = r.range(0, int(n) - 1);
    double v = 0;
    int tries = 0;
    do { v = c2::rand_value(r, r.chance(50) ? in_t : int(f.datatype)); if (in_t < 7) v = std::trunc(v); } while (++tries < 50 && (!in_range(v, in_t) || !in_range(v, f.datatype)));
    if (!in_range(v, in_t) || !in_range(v, f.datatype)) v = 1;
    InT value = static_cast<InT>(v);
    if (!in_range(static_cast<double>(value), f.datatype)) value = InT(1);
    const C2 before = c;
    const int how = r.range(0, 2);
    note(std::string("create_set_field_data_function from ") + name);
    bool e = false;
    if (how == 0) e = guarded([&] { pct::create_set_field_data_function<InT>(f)(c, i, value); });
    else if (how == 1) e = guarded([&] { pct::set_field_data<InT>(c, f, i, value); });
    else with_type(f.datatype, [&](auto tt) { using S = typename pcl::traits::asType<decltype(tt)::value>::type; e = guarded([&] { pct::create_set_field_data_function<InT, S>(f)(c, i, value); }); });
    Ev("set").t("from", name).raw("field", c2::field(f)).i("i", long(i)).d("v", static_cast<double>(value)).b("exc", e).raw("now", c2::value(c, f, i)).raw("src", c2::json(before)).raw("out", c2::json(c)).emit();
}
template<class S> static void stats_as(Rng& r, const C2& c, const F2& f, const char* name) {
    const bool by_name = r.chance(50);
    S mn{}, mx{}, sm{}, me{}, va{}, sd{}, va2{}, sd2{};
    note(std::string("statistics as ") + name);
    const double mean_in = r.chance(50) ? 0.0 : r.real(-3, 3);
    const bool e = guarded([&] {
        mn = by_name ? pct::min<S>(c, f.name) : pct::min<S>(c, f);
        mx = by_name ? pct::max<S>(c, f.name) : pct::max<S>(c, f);
        sm = by_name ? pct::sum<S>(c, f.name) : pct::sum<S>(c, f);
        me = by_name ? pct::mean<S>(c, f.name) : pct::mean<S>(c, f);
        va = by_name ? pct::variance<S>(c, f.name) : pct::variance<S>(c, f);
        sd = by_name ? pct::standard_deviation<S>(c, f.name) : pct::standard_deviation<S>(c, f);
        va2 = by_name ? pct::variance<S>(c, f.name, mean_in) : pct::variance<S>(c, f, mean_in);
        sd2 = by_name ? pct::standard_deviation<S>(c, f.name, mean_in) : pct::standard_deviation<S>(c, f, mean_in);
    });
    Ev("stats").t("as", name).b("int", !std::is_floating_point<S>::value).b("f32", std::is_same<S, float>::value).b("exc", e).raw("vals", c2::values(c, f.name))
        .d("min", double(mn)).d("max", double(mx)).d("sum", double(sm)).d("mean", double(me)).d("var", double(va)).d("sd", double(sd))
        .d("m", mean_in).d("varm", double(va2)).d("sdm", double(sd2)).emit();
}
static void access(Rng& r) {
    C2 c = c2::random_cloud(r);
    for (int k = 0; k < 3; ++k) {
        const F2 f = r.pick(c.fields);
        double lo = 1e300, hi = -1e300;
        for (std::size_t i = 0; i < std::size_t(c.width) * c.height; ++i) { lo = std::min(lo, val(c, f, i)); hi = std::max(hi, val(c, f, i)); }
        auto ok = [&](int t) { return in_range(lo, t) && in_range(hi, t); };
        const bool some = c.width * c.height;
        switch (r.range(1, 8)) {
            case 1: if (!some || ok(1)) get_as<std::int8_t>(r, c, f, "int8"); set_as<std::int8_t>(r, c, f, "int8", 1); break;
            case 2: if (!some || ok(2)) get_as<std::uint8_t>(r, c, f, "uint8"); set_as<std::uint8_t>(r, c, f, "uint8", 2); break;
            case 3: if (!some || ok(3)) get_as<std::int16_t>(r, c, f, "int16"); set_as<std::int16_t>(r, c, f, "int16", 3); break;
            case 4: if (!some || ok(4)) get_as<std::uint16_t>(r, c, f, "uint16"); set_as<std::uint16_t>(r, c, f, "uint16", 4); break;
            case 5: if (!some || ok(5)) get_as<std::int32_t>(r, c, f, "int32"); set_as<std::int32_t>(r, c, f, "int32", 5); break;
            case 6: if (!some || ok(6)) get_as<std::uint32_t>(r, c, f, "uint32"); set_as<std::uint32_t>(r, c, f, "uint32", 6); break;
            case 7: get_as<float>(r, c, f, "float"); set_as<float>(r, c, f, "float", 7); break;
            default: get_as<double>(r, c, f, "double"); set_as<double>(r, c, f, "double", 8);
        }
        const F2 g = r.pick(c.fields);
        if (g.count == 1) {
            double l2 = 1e300, h2 = -1e300, s2 = 0;
            const std::size_t n = std::size_t(c.width) * c.height;
            for (std::size_t i = 0; i < n; ++i) { l2 = std::min(l2, val(c, g, i)); h2 = std::max(h2, val(c, g, i)); s2 += std::abs(val(c, g, i)); }
            if (!n) {
                const bool a = guarded([&] { pct::min<double>(c, g); }), b = guarded([&] { pct::max<double>(c, g); }), d = guarded([&] { pct::max_str(c, g); });
                Ev("emptystats").b("exc", a && b && d).emit();
            } else {
                if (r.chance(60)) stats_as<double>(r, c, g, "double");
                else if (r.chance(60)) stats_as<float>(r, c, g, "float");
                else if (s2 < 1e4 && (h2 - l2) * (h2 - l2) < 1e6 && g.datatype <= 6) stats_as<std::int32_t>(r, c, g, "int32");
                auto num_of = [](const std::string& s) { return std::strtod(s.c_str(), nullptr); };
                statistics_msgs::SummaryStatistics st;
                statistics_msgs::SummaryStatisticsArray ar;
                std::string mns, mxs;
                std::string vs, vars;
                note("statistics");
                const bool e = guarded([&] { st = pct::statistics(c, g); ar = pct::statistics(c); mns = pct::min_str(c, g); mxs = pct::max_str(c, g); });
                std::size_t pos = 0;
                for (std::size_t i = 0; i < c.fields.size(); ++i) if (c.fields[i].name == g.name) pos = i;
                auto sj = [&](const statistics_msgs::SummaryStatistics& s) {
                    return "[" + num(s.min) + "," + num(s.max) + "," + num(s.mean) + "," + num(s.variance) + "," + num(double(s.count)) + "]"; };
                std::string lab = list(ar.statistics, [&](const statistics_msgs::SummaryStatistics& s) { return str(s.label); });
                Ev("summary").b("exc", e).raw("vals", c2::values(c, g.name)).t("name", g.name).t("label", st.label).raw("labels", lab).raw("names", list(c.fields, [](const F2& f) { return str(f.name); }))
                    .raw("st", sj(st)).raw("ar", sj(pos < ar.statistics.size() ? ar.statistics[pos] : statistics_msgs::SummaryStatistics())).d("mins", num_of(mns)).d("maxs", num_of(mxs)).emit();
            }
        }
        // scaling in place
        const std::string sn = some_name(r, c);
        const F2* sf = c2::find(c, sn);
        const double s = r.pick(std::vector<double>{2.0, 0.5, 1.0, -1.0, 10.0, 0.0, 1e-3});
        if (!sf || (sf->count == 1 && all_in_range(c, *sf, s, sf->datatype))) {
            const C2 before = c;
            const std::string was = c2::values(c, sn);
            note("scale_field");
            const bool by_field = sf && r.chance(50);
            const bool e = guarded([&] { if (by_field) pct::scale_field(c, *sf, s); else pct::scale_field(c, sn, s); });
            Ev("scale").t("name", sn).d("scale", s).b("exc", e).raw("was", was).raw("now", c2::values(c, sn)).raw("src", c2::json(before)).raw("out", c2::json(c)).emit();
        }
    }
    // geometry read from the cloud
    const F2 *x = c2::find(c, "x"), *y = c2::find(c, "y"), *z = c2::find(c, "z");
    if (x && y && z) {
        for (std::size_t i = 0; i < std::size_t(c.width) * c.height; ++i)
            if (val(c, *x, i) == 0 && val(c, *y, i) == 0) c2::put(c, *x, i, 1.0 + double(i));
        const bool dbl = r.chance(50);
        std::string u, p;
        note("unit_vectors/polar_coordinates");
        const bool e = guarded([&] {
            if (dbl) { u = mat(pct::unit_vectors<double>(c).transpose()); p = mat(pct::polar_coordinates<double>(c).transpose()); }
            else { u = mat(pct::unit_vectors<float>(c).transpose()); p = mat(pct::polar_coordinates<float>(c).transpose()); }
        });
        Ev("dirs").b("dbl", dbl).b("exc", e).raw("x", c2::values(c, "x")).raw("y", c2::values(c, "y")).raw("z", c2::values(c, "z")).raw("u", e ? "[]" : u).raw("p", e ? "[]" : p).emit();
    }
    // type widths
    for (int t = 1; t <= 8; ++t) {
        bool same[9] = {};
        int k = r.range(1, 8);
        with_type(k, [&](auto tt) { same[0] = pct::is_same_bit_depth<decltype(tt)::value>(std::uint8_t(t)); });
        Ev("width").i("type", t).i("other", k).b("b8", pct::is_8bit(std::uint8_t(t))).b("b16", pct::is_16bit(T(t))).b("b32", pct::is_32bit(std::uint8_t(t))).b("b64", pct::is_64bit(T(t)))
            .b("same", same[0]).t("name", pct::field_type_to_string(std::uint8_t(t))).emit();
    }
    // normals
    {
        C2 d = c2::layout(r, {{"x", 7, 1}, {"normal_x", 7, 1}, {"normal_y", 7, 1}, {"normal_z", 7, 1}}, true, r.chance(40));
        c2::shape(r, d, r.range(0, 6), 1);
        const F2 *a = c2::find(d, "normal_x"), *b = c2::find(d, "normal_y"), *g = c2::find(d, "normal_z");
        const float thr = r.pick(std::vector<float>{1e-5f, 1e-3f, 0.1f});
        for (std::size_t i = 0; i < d.width; ++i) {
            Eigen::Vector3d n = rand_dir(r);
            if (r.chance(50)) n *= 1.0 + r.pick(std::vector<double>{0.5, 2.0, -0.3, -0.5}) * thr;
            if (r.chance(20)) n *= r.real(0.0, 3.0);
            if (r.chance(5)) n.setZero();
            c2::put(d, *a, i, n[0]); c2::put(d, *b, i, n[1]); c2::put(d, *g, i, n[2]);
        }
        int cnt = -1;
        const bool e = guarded([&] { cnt = pct::check_normals(d, thr); });
        Ev("normals").b("exc", e).i("out", cnt).d("thr", thr).raw("x", c2::values(d, "normal_x")).raw("y", c2::values(d, "normal_y")).raw("z", c2::values(d, "normal_z")).emit();
    }
}

static void filt(Rng& r) {
    C2 c = c2::random_cloud(r, 9);
    const std::string n = some_name(r, c);
    const F2* f = c2::find(c, n);
    C2 d;
    if (r.chance(50)) { d = c2::random_cloud(r, 9); }  // the destination's old content must not matter
    bool e = false;
    double max = 0;
    std::string as;
    const std::size_t np = std::size_t(c.width) * c.height;
    const double pivot = f && np ? val(c, *f, r.range(0, int(np) - 1)) : 1.0;
    const bool by_field = f && r.chance(50);
    note("filter_max");
    auto run = [&](auto m) { using M = decltype(m); max = double(m); e = guarded([&] { if (by_field) pct::filter_max<M>(c, d, *f, m); else pct::filter_max<M>(c, d, n, m); }); };
    const double m = r.chance(60) ? pivot : f ? c2::rand_value(r, f->datatype) : 0.0;
    if (f && f->datatype != 7 && r.chance(40)) { if (f->datatype <= 6) { if (in_range(m, 5) && all_in_range(c, *f, 1.0, 5)) run(std::int32_t(m)); else run(m); } else run(m); }
    else if (r.chance(50)) run(float(m));
    else run(m);
    // values as float when compared as float
    Ev("filtermax").t("name", n).d("max", max).b("exc", e).raw("vals", c2::values(c, n)).raw("src", c2::json(c)).raw("out", c2::json(d)).emit();
}

static void skewed(Rng& r) {
    const int ct = r.chance(80) ? 7 : 8, tt = r.chance(80) ? 7 : 8;
    std::vector<c2::Spec> s{{"x", ct, 1}, {"y", ct, 1}, {"z", ct, 1}, {"intensity", r.range(1, 8), 1}, {"t", tt, 1}};
    if (r.chance(50)) s.push_back({"extra", r.range(1, 8), r.range(1, 3)});
    if (r.chance(4)) s.erase(s.begin() + 4);
    C2 c = c2::layout(r, s, r.chance(50), r.chance(25));
    const int h = r.chance(20) ? 2 : 1;
    c2::shape(r, c, r.chance(5) ? 0 : r.range(1, 6), h);
    if (c.header.stamp == 0) c.header.stamp = 5000000;
    const double dt = r.chance(6) ? r.pick(std::vector<double>{0.0, -0.1}) : r.pick(std::vector<double>{0.1, 0.05, 1.0, 0.0998});
    const F2* t = c2::find(c, "t");
    const std::size_t np = std::size_t(c.width) * c.height;
    for (std::size_t i = 0; i < np; ++i) {
        for (auto n : {"x", "y", "z"}) c2::put(c, *c2::find(c, n), i, r.chance(10) ? 0.0 : r.real(-40, 40));
        if (t) c2::put(c, *t, i, std::abs(dt) * (r.chance(15) ? 0.0 : r.chance(15) ? 1.0 : r.chance(10) ? 1.1 : r.unit()));
    }
    Eigen::Vector3d rv = rand_dir(r) * r.pick(std::vector<double>{0.0, 1e-6, 1e-3, 0.05, 0.3, 1.5, 2.8});
    Eigen::Vector3d tr = r.chance(20) ? Eigen::Vector3d::Zero() : rand_vec(r, r.pick(std::vector<double>{0.01, 0.5, 5.0}));
    if (r.chance(8)) { rv.setZero(); tr.setZero(); }
    Eigen::Isometry3d skew = Eigen::Isometry3d::Identity();
    if (rv.norm() > 0) skew.linear() = Eigen::AngleAxisd(rv.norm(), rv.normalized()).toRotationMatrix();
    skew.translation() = tr;
    std::int64_t delta = std::int64_t(std::abs(dt) * 1e6);
    switch (r.range(0, 5)) { case 0: delta = 0; break; case 1: delta /= 2; break; case 2: delta = -delta / 3; break; case 3: delta += 4000; break; default: break; }
    const std::uint64_t nt = std::uint64_t(std::int64_t(c.header.stamp) + delta);
    // a point exactly at the reference time
    if (t && np && delta > 0 && r.chance(30)) c2::put(c, *t, 0, double(delta) * 1e-6);
    C2 d;
    if (r.chance(30)) d = c2::random_cloud(r);
    const C2 before = c;
    note("deskew");
    const bool e = guarded([&] { pct::deskew(skew, dt, nt, c, d); });
    Ev("deskew").v("rv", rv).v("tr", tr).d("dt", dt).d("delta", double(delta)).t("new", std::to_string(nt)).b("exc", e).b("kept", c2::json(before) == c2::json(c)).b("f32", ct == 7)
        .raw("x", c2::values(c, "x")).raw("y", c2::values(c, "y")).raw("z", c2::values(c, "z")).raw("t", c2::values(c, "t"))
        .raw("ox", c2::values(d, "x")).raw("oy", c2::values(d, "y")).raw("oz", c2::values(d, "z")).raw("ot", c2::values(d, "t"))
        .raw("src", c2::json(c)).raw("out", c2::json(d)).emit();
}

int main(int argc, char** argv) {
    const Args a = vh::start(argc, argv);
    for (int k = 0; k < a.count; ++k) {
        Rng r(a.seed * 1000003ull + std::uint64_t(a.part) * 7919ull + std::uint64_t(k) * 104729ull + std::hash<std::string>{}(a.group) % 1000);
        if (a.group == "P06") edits(r);
        else if (a.group == "P07") access(r);
        else if (a.group == "P08") filt(r);
        else if (a.group == "P09") skewed(r);
        else return 64;
    }
    return finish();
}

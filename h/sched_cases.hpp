  // included in main() of c_sched.cpp: fills `scenarios`
  auto mesh_cases = all_cases(vx::thorough());
  auto uniform = [](int nd, double mult) {
    std::vector<double> s; double rho = 1.2, p = .9, u[3] {.31, -.47, .22}, k = 0;
    for (int d = 0; d < nd; ++d) {s.push_back(rho*u[d]*mult); k += .5*rho*u[d]*u[d]*mult*mult;}
    s.push_back(rho); s.push_back(p/.4 + k); return s;
  };
  auto bumpy = [=](int nd) {return Fn(nd + 2, [=](std::vector<double> pos) {
    auto st = uniform(nd, 1); double x = 0; for (int d = 0; d < nd; ++d) x += (d + 1)*pos[d];
    double f = 1 + .2*std::sin(3*x); for (auto& y : st) y *= f; return st;
  });};
  auto freestream = [=](int nd) {auto st = uniform(nd, 1); Mat<> m(nd + 2); for (int i = 0; i < nd + 2; ++i) m(i) = st[i]; return m;};
  auto fresh = [=](int nd, int rs, bool visc, bool impl = false) {
    auto s = std::make_unique<Solver>(nd, rs, 1., false, visc ? Transport_model::constant(.02) : inviscid, visc ? Transport_model::constant(7.) : inviscid, std::make_shared<Namespace>(), std::make_shared<Quiet>(), impl);
    auto st = uniform(nd, 1);
    for (int i = 0; i < nd + 2; ++i) s->nspace().assign("freestream" + std::to_string(i), st[i]);
    s->nspace().assign("freestream_speed", .6); s->nspace().assign("freestream_sound_speed", 1.02);
    return s;
  };
  // a mesh of the solver families, then every kind of computation on it
  auto solver_scenario = [&](const Mesh_case& mc, int rs) {
    scenarios.push_back({"solve | " + mc.name + " | row " + std::to_string(rs), 1e-8, [=](Sig& sig) {
      int nd = mc.nd;
      auto ps = fresh(nd, rs, true); Solver& s = *ps;
      mc.build(s, [&](int which) -> Flow_bc* {if (which) return new No_slip; return new Freestream(freestream(nd));});
      built = ox::n_regions;
      s.initialize(bumpy(nd));
      s.set_art_visc_constant(.01); s.nspace().assign("use_filter", 1); s.nspace().assign("max_safety", 8.);
      s.update();
      s.nspace().assign("local_time", 1); s.set_fix_admissibility(true); s.update(); s.set_fix_admissibility(false); s.nspace().assign("local_time", 0);
      try {s.update_art_visc_smoothness(.5);} catch (std::exception& e) {}
      try {s.update_art_visc_elwise(.1);} catch (std::exception& e) {}
      try {s.update_art_visc_elwise(.1, true);} catch (std::exception& e) {}
      try {s.set_art_visc_admis();} catch (std::exception& e) {}
      sig.scalars.push_back(s.is_admissible());
      s.compute_residual();
      Mass mass; s.set_uncertainty(Elem_nonsmooth(mass));
      s.synch_extruded_uncert();
      auto add = [&](std::vector<double> v) {for (double x : v) sig.scalars.push_back(x);};
      add(s.integral_field(State_variables()));
      add(s.integral_field(Physical_residual()));
      for (auto b : s.bounds_field(State_variables(), 3)) {add({b[0], b[1]});}
      auto& bc = am(s).boundary_connections(); std::set<int> sns; for (int i = 0; i < bc.size(); ++i) sns.insert(bc[i].bound_cond_serial_n());
      for (int sn : sns) add(s.integral_surface(Viscous_stress(), sn));
      // defined for boundaries which touch each element with at most one face
      for (int sn : sns) {std::map<Element*, int> n; for (int i = 0; i < bc.size(); ++i) if (bc[i].bound_cond_serial_n() == sn) ++n[&bc[i].element()]; bool one = true; for (auto& p : n) one = one && p.second < 2; if (one) {s.set_uncert_surface_rep(sn); break;}}
      s.set_art_visc_off(); s.update();
      sig.scalars.push_back(s.iteration_status().time_step);
      collect(sig, am(s), true);
    }});
  };
  // meshing alone: body, adaptation with and without it, layers, writing and reading back
  auto mesh_scenario = [&](const Mesh_case& mc) {
    scenarios.push_back({"mesh | " + mc.name, 1e-9, [=](Sig& sig) {
      auto ps = fresh(mc.nd, 2, false);
      mc.build(*ps, [&](int which) -> Flow_bc* {return new Copy;});
      collect(sig, am(*ps), false);
    }});
  };
  static const std::string scratch = [] {char t [] = "/tmp/c12_XXXXXX"; return std::string(mkdtemp(t)) + "/";}();
  struct Clean {~Clean() {std::filesystem::remove_all(scratch);}}; static Clean clean;
  // output, mesh IO, the repair of inadmissible states, the implicit scheme
  auto extra_scenario = [&](const Mesh_case& mc, int rs) {
    int nd = mc.nd;
    auto make_bc = [=](int which) -> Flow_bc* {if (which) return new No_slip; return new Freestream(freestream(nd));};
    scenarios.push_back({"output | " + mc.name, 1e-8, [=](Sig& sig) {
      auto ps = fresh(nd, rs, false); Solver& s = *ps; auto& m = am(s);
      mc.build(s, make_bc); built = ox::n_regions;
      s.initialize(bumpy(nd)); s.update();
      Interpreter inter(std::vector<std::string>{}); Struct_expr expr("speed_sq = (momentum0*momentum0)/density^2; rho = density;"); Qpoint_expr qe(expr, inter);
      for (double x : s.integral_field(qe)) sig.scalars.push_back(x);
      if (nd > 1) {
        s.visualize_field("xdmf", scratch + "f", qe, 3); s.visualize_field("xdmf", scratch + "w", State_variables(), 3, true);
        s.vis_lts_constraints("xdmf", scratch + "l", 3);
        auto& bc = m.boundary_connections(); int sn = bc[bc.size() - 1].bound_cond_serial_n();
        s.visualize_surface("xdmf", scratch + "s", sn, Viscous_stress(), 3);
        if (m.surface_bc_sn() >= 0 && mc.name.find("ball") + mc.name.find("disc") < 2*std::string::npos - 1) s.vis_cart_surf("xdmf", scratch + "c", sn);
      }
      m.set_unref_locks(criteria::if_extruded);
      m.write(scratch + "m");
      collect(sig, m, true);
      if (mc.tree || mc.name.compare(0, 4, "disc") == 0 || mc.name.compare(0, 4, "ball") == 0) {
        m.set_all_smooth(); m.relax(.3);
        collect(sig, m, false);
      }
    }});
    if (mc.name.compare(0, 4, "disc") == 0) scenarios.push_back({"repair | " + mc.name, 1e-8, [=](Sig& sig) {
      auto ps = fresh(nd, rs, true); Solver& s = *ps; s.nspace().assign("working_dir", scratch);
      mc.build(s, make_bc); built = ox::n_regions;
      // a strong expansion: the first update produces a negative density or energy
      s.initialize(Fn(nd + 2, [=](std::vector<double> pos) {
        std::vector<double> st(nd + 2, 0.); double f = std::tanh(8*(pos[0] - .41)); st[0] = 4*f; st[nd] = 1; st[nd + 1] = 8*f*f + .002/.4; return st;
      }));
      s.set_fix_admissibility(true); s.nspace().assign("max_safety", 8.);
      for (int i = 0; i < 3; ++i) s.update();
      sig.scalars.push_back(s.nspace().lookup<int>("fix_iters").value());
      if (getenv("VERIF_FNS")) fprintf(stderr, "  fix iterations %d\n", s.nspace().lookup<int>("fix_iters").value());
      collect(sig, am(s), true);
    }});
    scenarios.push_back({"implicit | " + mc.name, 1e-6, [=](Sig& sig) {
      auto ps = fresh(nd, rs, false, true); Solver& s = *ps;
      mc.build(s, make_bc); built = ox::n_regions;
      s.initialize(bumpy(nd)); s.update(); s.update_implicit();
      collect(sig, am(s), true);
    }});
  };
  // layers split twice, then adaptation of a mesh which has them
  auto layers_scenario = [&](const Mesh_case& mc) {
    scenarios.push_back({"layers | " + mc.name, 1e-9, [=](Sig& sig) {
      auto ps = fresh(mc.nd, 2, false); auto& m = am(*ps);
      mc.build(*ps, [&](int which) -> Flow_bc* {return new Copy;}); built = ox::n_regions;
      for (double split : {.6, .5}) {
        m.disconnect_boundary(m.surface_bc_sn()); m.extrude(true, split, true); m.connect_rest(m.surface_bc_sn()); m.cleanup();
        collect(sig, m, false);
      }
      m.set_unref_locks(criteria::if_extruded);
      for (int k = 0; k < 2; ++k) {
        m.update([=](Element& e) {return k == 0 && std::sin(40*e.vertex(0).pos(0) + 23*e.vertex(0).pos(1)) < -.6;}, [=](Element& e) {return std::sin(31*e.vertex(0).pos(0) + (17 + k)*e.vertex(0).pos(1)) < -.4;});
        m.relax(.5); collect(sig, m, false);
        if (!m.valid()) throw std::runtime_error("an invalid mesh");
      }
    }});
  };
  // the same through the driver: HIL criteria evaluated inside the parallel loops, iterations, output and restart
  auto driver_scenario = [&](const std::string& name, const std::string& body, double tol) {
    scenarios.push_back({"driver | " + name, tol, [=](Sig& sig) {
      std::string wd = scratch + "case/"; std::filesystem::remove_all(wd); std::filesystem::create_directory(wd);
      {
        std::ofstream csv(wd + "body.csv"); csv.precision(17);
        for (int i = 0; i <= 12; ++i) {double a = 2*M_PI*(i%12)/12; csv << .48 + .21*std::cos(a) << ", " << .53 + .17*std::sin(a) << "\n";}
        std::ofstream hil(scratch + "run.hil");
        hil << "n_dim = 2\nrow_size = 2\nprint_freq = 2\nworking_dir = {" << wd << "}\ngeom0 = {" << wd << "body.csv}\n"
            << "freestream_density = 1.2\nfreestream_pressure = 1e5\nfreestream_mach = .4\nattack = 3*degree\ninit_ref_level = 3\nmax_ref_level = 4\nmax_refinement_iters = 2\n" << body;
      }
      std::streambuf* old = std::cout.rdbuf(nullptr);
      struct Back {std::streambuf* b; ~Back() {std::cout.rdbuf(b);}} back {old};
      Case c(scratch + "run.hil");
      auto& s = Case_access::solver(c); collect(sig, am(s), true);
      for (const char* n : {"residual_momentum", "residual_energy", "flow_time", "lift_min", "lift_max", "integral_field_mass"}) {
        auto x = s.nspace().lookup<double>(n); sig.scalars.push_back(x ? *x : -1);
      }
    }});
  };
  std::string monitors = "monitor_vars = {lift = integral_surface_force1;}\nvis_xdmf = 1\nvis_tecplot = 0\n";
  driver_scenario("criteria", "refine_if = {(uncertainty > .002 | snapping_problem) & ref_level < max_ref_level}\nunrefine_if = {ref_level > init_ref_level & !is_extruded & center0 > .5}\n"
    "$start\n$mesh\nwrite_mesh\n", 1e-9);
  driver_scenario("layers", "max_refinement_iters = 1\ninit_layer_splits = 1\nrefine_if = {center0 < .3 & ref_level < max_ref_level}\nunrefine_if = {is_extruded & center1 < .5}\n"
    "$start\n$mesh\nrefine\nsplit_layers\nrefine\n", 1e-9);
  driver_scenario("run", "refine_if = {false}\nunrefine_if = {false}\nmonitor_vars = {lift = integral_surface_force1;}\nintegrand_field = {mass = density;}\n"
    "$start\n$mesh\ninit_state\ncompute_residuals\nintegral_surface_force1 = 0.\nupdate\nintegrate_field\nupdate\nwrite_mesh\nwrite_state\n", 1e-7);
  int k = 0;
  for (auto& mc : mesh_cases) {
    bool body = mc.name.compare(0, 4, "disc") == 0 || mc.name.compare(0, 4, "ball") == 0;
    ++k;
    if (body && (vx::thorough() || mc.nd == 3 || k%3 == 0)) mesh_scenario(mc);
    if (body && (vx::thorough() || k%5 == 0)) layers_scenario(mc);
    if (mc.name.compare(0, 7, "extrude") == 0 && (vx::thorough() || k%3 == 0)) mesh_scenario(mc);
    if (mc.name == "tree 2 refine 6 then 7" || mc.name == "disc 11 r0.24 near1" || mc.name == "extrude single 3" || (vx::thorough() && k%29 == 0)) extra_scenario(mc, mc.nd == 3 ? 2 : 3);
    if (!vx::thorough() && !(body ? (mc.nd == 3 ? k%5 == 0 : k%9 == 0) : mc.name.compare(0, 4, "tree") == 0 ? k%97 == 0 : k%23 == 0)) continue;
    solver_scenario(mc, mc.nd == 3 ? mc.row_sizes[0] : mc.row_sizes.back());
  }

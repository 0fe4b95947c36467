"""harness -> its own sources, the repository sources it needs, compiler flavour."""
HARNESSES = {
    "NimbleSM": {"src": [], "sut": "ALL", "main_from_repo": True},
    "p_expr": {"src": ["vp.cc", "p_expr.cc"], "sut": ["src/nimble_expression_parser.cc"], "flavor": "asan"},
    "p_parser": {"src": ["vp.cc", "p_parser.cc"], "sut": ["src/nimble_parser.cc", "src/nimble_material_factory_base.cc", "src/nimble_material_factory.cc", "src/nimble_material.cc"], "flavor": "asan"},
    "p_mech": {"src": ["vp.cc", "p_mech.cc"], "sut": ["src/nimble_element.cc", "src/nimble_material.cc", "src/nimble_material_factory_base.cc"]},
    "p_core": {"src": ["vp.cc", "p_core.cc"], "sut": ["src/nimble_linear_solver.cc", "src/nimble_data_utils.cc", "src/nimble.mpi.reduction_utils.cc"]},
    "p_host": {"src": ["vp.cc", "p_host.cc"], "sut": "ALL", "link": "-Wl," + ",".join("--wrap=" + w for w in ["MPI_Init", "MPI_Init_thread", "MPI_Finalize", "_ZN6Kokkos10initializeERiPPc", "_ZN6Kokkos8finalizeEv"])},
    "p_hist": {"src": ["vp.cc", "p_hist.cc"], "sut": "ALL", "link": "-Wl," + ",".join("--wrap=" + w for w in ["MPI_Init", "MPI_Init_thread", "MPI_Finalize", "_ZN6Kokkos10initializeERiPPc", "_ZN6Kokkos8finalizeEv"])},
    "p_run": {"src": ["vp.cc", "p_run.cc"], "sut": "ALL", "link": "-Wl," + ",".join("--wrap=" + w for w in ["MPI_Init", "MPI_Init_thread", "MPI_Finalize", "_ZN6Kokkos10initializeERiPPc", "_ZN6Kokkos8finalizeEv"])},
    "p_mpi": {"src": ["vp.cc", "p_mpi.cc"], "sut": "ALL"},
    "p_contact": {"src": ["vp.cc", "p_contact.cc"], "sut": "ALL"},
    "p_exe": {"src": ["vp.cc", "p_exe.cc"], "sut": "NONE"},
    "p_mesh": {"src": ["vp.cc", "p_mesh.cc"], "sut": ["src/nimble_genesis_mesh.cc", "src/nimble_exodus_output.cc"], "flavor": "asan"},
}
SAFE_LINK = ",--wrap=_ZN6Kokkos4Impl23throw_runtime_exceptionERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE,--wrap=_ZSt21__glibcxx_assert_failPKciS0_S0_"
# the same cases with sanitizers and bounds checks; the number is by how much fewer they are
for _h, _n in {"p_run": 15, "p_host": 25, "p_hist": 15, "p_contact": 10, "p_mpi": 8, "p_core": 20, "p_mech": 15, "p_exe": 2}.items():
    _d = dict(HARNESSES[_h])
    _l = _d.get("link", "")
    HARNESSES["s" + _h[1:]] = dict(_d, flavor="safe", defs="-DVP_SAFE=%d" % _n, link=_l + SAFE_LINK if _l else "-Wl" + SAFE_LINK)
HARNESSES["s_NimbleSM"] = dict(HARNESSES["NimbleSM"], flavor="safe")
# property -> harness runs (harness name, extra arguments)
RUNS = {
    "C09": [{"harness": "p_core"}],
    "C11": [{"harness": "p_core"}, {"harness": "p_hist"}],
    "C16": [{"harness": "p_host"}],
    "C24": [{"harness": "p_host"}],
    "C29": [{"harness": "p_hist"}],
    "C28": [{"harness": "p_core"}, {"harness": "p_mpi"}],
    "C18": [{"harness": "p_mpi"}],
    "C19": [{"harness": "p_mpi"}],
    "C10": [{"harness": "p_mesh"}],
    "C03": [{"harness": "p_run"}, {"harness": "p_host"}],
    "C12": [{"harness": "p_mesh"}, {"harness": "p_run"}, {"harness": "p_host"}],
    "C13": [{"harness": "p_run"}],
    "C14": [{"harness": "p_run"}],
    "C15": [{"harness": "p_run"}],
    "C17": [{"harness": "p_run"}],
    "C27": [{"harness": "p_run"}, {"harness": "p_exe", "also": ["NimbleSM"]}],
    "C20": [{"harness": "p_contact"}],
    "C21": [{"harness": "p_contact"}],
    "C22": [{"harness": "p_contact"}, {"harness": "p_run"}],
    "C23": [{"harness": "p_contact"}],
    "C01": [{"harness": "p_parser"}],
    "C25": [{"harness": "p_parser"}],
    "C26": [{"harness": "p_parser"}],
    "C04": [{"harness": "p_mech"}],
    "C05": [{"harness": "p_mech"}],
    "C06": [{"harness": "p_mech"}],
    "C07": [{"harness": "p_mech"}, {"harness": "p_run"}],
    "C08": [{"harness": "p_mech"}, {"harness": "p_host"}],
    "C02": [{"harness": "p_expr"}],
    "C30": [{"harness": h} for h in ("s_run", "s_host", "s_hist", "s_contact", "s_mpi", "s_core", "s_mech")] + [{"harness": "p_host"}, {"harness": "s_exe", "also": ["s_NimbleSM"]}],
    "C31": [{"harness": "p_run"}, {"harness": "p_host"}],
}
LEVEL_NOTES = {"C30": {"technique": "property-based testing: generated models and operations under sanitizers and bounds checks; repeated runs compared bit for bit"}}

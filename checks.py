CHECKS = {
    "U01": dict(src=["harness/u01_lazy.cc"], flavour="san"),
    "U02": dict(src=["harness/u02_algo.cc"], flavour="san"),
    "U03": dict(src=["harness/u03_parse.cc"], flavour="san", cflags="-UNDEBUG"),
    "U11": dict(src=["harness/u11_narrow.cc"], flavour="san", cflags="-UNDEBUG"),
    "U04": dict(src=["harness/u04_containers.cc"], flavour="san"),
    "U05": dict(src=["harness/u05_graph.cc"], flavour="opt"),
    "U06": dict(src=["harness/u06_time.cc"], lib=["src/utls/unixtime.cc"], flavour="san"),
    "U07": dict(src=["harness/u07_types.cc"], flavour="opt"),
    "U08": dict(src=["harness/u08_geo.cc"], lib=["src/utls/coordinates/*.cc"], flavour="opt"),
    "U09": dict(src=["harness/u09_units.cc"], flavour="opt"),
    "U10": dict(src=["harness/u10_files.cc"], flavour="san"),
    "U12": dict(src=["harness/u12_errors.cc"], lib=["src/**/*error*.cc"], flavour="san"),
    "T01": dict(src=["harness/t01_bitfield.cc"], lib=["src/timetable/bitfield.cc"], flavour="san"),
    "T02": dict(src=["harness/t02_departures.cc"], lib="all", flavour="opt"),
    "I01": dict(src=["harness/i01_exclusion_set.cc"], lib=["src/infrastructure/exclusion/exclusion_set.cc"], flavour="san"),
    "I02": dict(src=["harness/i02_track.cc"], lib="all", flavour="san"),
    "I04": dict(src=["harness/i04_station_routes.cc"], lib="all", flavour="san"),
    "I05": dict(src=["harness/i05_interlocking.cc"], lib="all", flavour="san"),
    "I06": dict(src=["harness/i06_exclusion.cc"], lib="all", flavour="san"),
    "I07": dict(src=["harness/i07_cliques.cc"], lib="all", flavour="san"),
    "I10": dict(src=["harness/i10_export.cc"], lib="all", flavour="san", cflags="-I{REPO}"),
    "I08": dict(src=["harness/i08_data.cc"], lib="all", flavour="san"),
    "T03": dict(src=["harness/t03_path.cc"], lib="all", flavour="san"),
    "T04": dict(src=["harness/t04_train.cc"], lib="all", flavour="san"),
    "S02": dict(src=["harness/s02_ordering_algorithms.cc"], lib="all", flavour="opt"),
    "S01": dict(src=["harness/s01_ordering_graph.cc"], lib="all", flavour="san"),
    "S03": dict(src=["harness/s03_distribution.cc"], lib=[], flavour="san"),
    "R01": dict(src=["harness/r01_runtime.cc"], lib="all", flavour="san"),
    "R02": dict(src=["harness/r02_rolling_stock.cc"], lib="all", flavour="san"),
    "T05": dict(src=["harness/t05_kss.cc"], lib="all", flavour="san"),
    "X01": dict(src=["harness/x01_schedules.cc", "harness/nt_sched.cc"], lib="all", flavour="trace"),
    "I09": dict(src=["harness/i09_layout.cc"], lib="all", flavour="san"),
    "W01": dict(src=["harness/w01_server.cc"], lib=["src/**/*.cc", "web/server/src/soro_server.cc", "web/server/src/modules/*/*.cc", "web/server/src/modules/tiles/osm_export/*.cc"],
                flavour="san", cflags="-I{REPO}/web/server/include -include {HERE}/shim/cereal_string_view.h"),
    "W02": dict(src=["harness/w02_osm.cc"], lib=["src/**/*.cc", "web/server/src/modules/tiles/osm_export/*.cc"],
                flavour="san", cflags="-I{REPO}/web/server/include"),
    "W03": dict(src=["harness/w03_start.cc", "harness/w03_main.cc"], lib=["src/**/*.cc", "web/server/src/soro_server.cc", "web/server/src/modules/*/*.cc", "web/server/src/modules/tiles/osm_export/*.cc"],
                flavour="san", cflags="-I{REPO} -I{REPO}/web/server/include -include {HERE}/shim/cereal_string_view.h"),
    "I03": dict(src=["harness/i03_sections.cc"], lib="all", flavour="san"),
    "G01": dict(go="g01", tool=True),
    "G02": dict(go="g02"),
    "G03": dict(go="g03", tool=True),
    "C01": dict(node="c01"),
    "C02": dict(node="c02"),
    "C03": dict(node="c03"),
    "C04": dict(node="c04"),
}

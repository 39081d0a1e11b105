PROPERTY = "X01"
NEEDS = "a later file of a timetable is finished before an earlier one"
BREAKS = "the trains of a timetable and their ids depend on how the files were scheduled"
EDITS = {"src/timetable/parsers/kss/parse_kss_timetable.cc": [
("""  utl::parallel_for_run(work_todo.size(), [&](auto&& work_id) {
    work_todo[work_id].result_ =
        parse_timetable_file(work_todo[work_id].timetable_file_, infra, stats);
  });

  for (auto const& work_item : work_todo) {
    if (!work_item.result_) {
      return utls::propagate(work_item.result_);
    }

    utl::concat(bt.trains_, *work_item.result_);
  }
""", """  std::mutex result_mutex;

  utl::parallel_for_run(work_todo.size(), [&](auto&& work_id) {
    auto& work_item = work_todo[work_id];
    work_item.result_ =
        parse_timetable_file(work_item.timetable_file_, infra, stats);

    // collect right away, so that the trains of a file are freed early
    if (work_item.result_) {
      std::lock_guard const lock{result_mutex};
      utl::concat(bt.trains_, *work_item.result_);
      work_item.result_->clear();
    }
  });

  for (auto const& work_item : work_todo) {
    if (!work_item.result_) {
      return utls::propagate(work_item.result_);
    }
  }
""")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h", "trains.h", "line.h"]
DEMO = r'''
#include "line.h"
#include "soro/timetable/timetable.h"
using namespace iss;
int main() {
  std::string const core = core_defaults(160) +
      "<Triebfahrzeugbaureihen><Triebfahrzeugbaureihe><Nr>42</Nr><Eisenbahnunternehmen Nr=\"8000\">DB</Eisenbahnunternehmen><Triebfahrzeugbaureihenvarianten>"
      "<Triebfahrzeugbaureihenvariante><Variante>1</Variante><Bezeichnung>B</Bezeichnung><EigenGewicht>80</EigenGewicht><ZulaessigeGeschwindigkeit>100</ZulaessigeGeschwindigkeit>"
      "<Laufwiderstandsfaktor1>1</Laufwiderstandsfaktor1><Laufwiderstandsfaktor2>0</Laufwiderstandsfaktor2><Laufwiderstandsfaktor3>0</Laufwiderstandsfaktor3>"
      "<Stromartausruestungen><Stromartausruestung><Zugkraftfaktoren><Zugkraftfaktor><Faktor1>150</Faktor1><Faktor2>0</Faktor2><Faktor3>0</Faktor3><GeschwindigkeitVon>0</GeschwindigkeitVon>"
      "<GeschwindigkeitBis>400</GeschwindigkeitBis></Zugkraftfaktor></Zugkraftfaktoren></Stromartausruestung></Stromartausruestungen></Triebfahrzeugbaureihenvariante>"
      "</Triebfahrzeugbaureihenvarianten></Triebfahrzeugbaureihe></Triebfahrzeugbaureihen>";
  auto c = line({"hS", "S", "Sh"}, core);
  auto const infra = loaded(c);
  auto const dir = fs::path(std::getenv("MC_SCRATCH")) / "tt";
  fs::create_directories(dir);
  for (int f = 0; f < 2; ++f) {
    std::string x = "<?xml version=\"1.0\"?><KSS><header><spurplanVersionDescription><name>V</name><number>7</number></spurplanVersionDescription></header><railml><timetable>";
    x += "<train trainStatus=\"freig\"><fineConstruction><constructionTrain><trainNumber><mainNumber>" + std::to_string(f) +
         "</mainNumber><subNumber>0</subNumber></trainNumber><characteristic><tractionUnits><tractionUnit><tractionUnitDesignSeries><designSeries Nr=\"8000\">42"
         "</designSeries><variante>1</variante></tractionUnitDesignSeries></tractionUnit></tractionUnits><maxVelocity>100</maxVelocity><trainProtection>false</trainProtection><totalLength>100</totalLength>"
         "<totalWeight>200</totalWeight></characteristic><services><service startDate=\"2023-01-01\" endDate=\"2023-01-03\" bitMask=\"101\"/></services><sequence><sequenceServicePoints>";
    auto const n = c.srs_.size();
    for (std::size_t k = 0; k < n; ++k) {
      x += "<sequenceServicePoint><servicePoint>" + c.t_.T[static_cast<std::size_t>(c.srs_[k].w_.station_)].name_ + "</servicePoint><trackSystem>" + c.srs_[k].r_.name_ + "</trackSystem>";
      if (k == 0) x += "<departure><time>08:00:00.00</time></departure>";
      if (k == n - 1) x += "<arrival><time>09:00:00.00</time></arrival>";
      if (k == 0 || k == n - 1) x += "<stopMode Schluessel=\"4\"/>";
      x += "</sequenceServicePoint>";
    }
    put(dir / ("KSS-" + std::to_string(f) + ".xml"), x + "</sequenceServicePoints></sequence></constructionTrain></fineConstruction></train></timetable></railml></KSS>");
  }
  // the same jobs one after the other and the other way round
  std::vector<unsigned> ids[2];
  for (int back = 0; back < 2; ++back) {
    utl::shim::scheduler().order_ = [&](std::size_t n) {
      std::vector<std::size_t> v(n);
      for (std::size_t k = 0; k < n; ++k) v[k] = back ? n - 1 - k : k;
      return v;
    };
    auto const got = soro::tt::try_parsing_timetable(soro::tt::make_timetable_opts(dir), infra);
    if (!got || (*got)->trains_.size() != 2) { std::printf("not read\n"); return 2; }
    for (auto const& t : (*got)->trains_) ids[back].push_back(t.number_.main_);
  }
  if (ids[0] != ids[1]) { std::printf("trains depend on the order of the jobs\n"); return 1; }
  return 0;
}
'''

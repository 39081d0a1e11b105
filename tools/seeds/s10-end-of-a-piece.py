PROPERTY = "R02"
NEEDS = "a vehicle whose curve has two pieces, at exactly the speed where one ends and the other begins"
BREAKS = "the force at that speed is that of the piece that ends there"
EDITS = {"include/soro/utls/math/piecewise_function.h": [("return x.val_ < p.to_.val_; });", "return x.val_ <= p.to_.val_; });")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h"]
DEMO = r'''
#include "irs.h"
#include "soro/rolling_stock/rolling_stock.h"
#include "soro/rolling_stock/train_physics.h"
using namespace iss;
int main() {
  auto const piece = [](int f, int from, int to) {
    return mc::str("<Zugkraftfaktor><Faktor1>", f, "</Faktor1><Faktor2>0</Faktor2><Faktor3>0</Faktor3><GeschwindigkeitVon>", from, "</GeschwindigkeitVon><GeschwindigkeitBis>", to, "</GeschwindigkeitBis></Zugkraftfaktor>");
  };
  auto t = row({"hS", "Sh"}, true, false, false);
  t.core_ = "<Triebfahrzeugbaureihen><Triebfahrzeugbaureihe><Nr>42</Nr><Eisenbahnunternehmen Nr=\"8000\">DB</Eisenbahnunternehmen><Triebfahrzeugbaureihenvarianten>"
      "<Triebfahrzeugbaureihenvariante><Variante>1</Variante><Bezeichnung>B</Bezeichnung><EigenGewicht>80</EigenGewicht><ZulaessigeGeschwindigkeit>100</ZulaessigeGeschwindigkeit>"
      "<Laufwiderstandsfaktor1>1</Laufwiderstandsfaktor1><Laufwiderstandsfaktor2>0</Laufwiderstandsfaktor2><Laufwiderstandsfaktor3>0</Laufwiderstandsfaktor3>"
      "<Stromartausruestungen><Stromartausruestung><Zugkraftfaktoren>" + piece(150, 0, 36) + piece(100, 36, 400) + "</Zugkraftfaktoren></Stromartausruestung></Stromartausruestungen></Triebfahrzeugbaureihenvariante>"
      "</Triebfahrzeugbaureihenvarianten></Triebfahrzeugbaureihe></Triebfahrzeugbaureihen>";
  auto const infra = load(write(t, "iss"));
  auto const v = infra->rolling_stock_.get_traction_vehicle("42", "8000", 1);
  if (!v) { std::printf("no vehicle\n"); return 2; }
  soro::rs::train_physics const p(soro::vector<soro::rs::traction_vehicle>(1U, *v), soro::si::from_ton(100.0), soro::si::from_m(100.0), soro::si::from_km_h(100.0), soro::rs::CTC::NO, soro::rs::FreightTrain::NO);
  auto const f = p.tractive_force(soro::si::from_km_h(36.0)).val_;
  if (std::abs(f - 100000.0) > 1.0) { std::printf("force %f\n", f); return 1; }
  return 0;
}
'''

"""Writes MANIFEST.json from the registry and the table below.  python3 tools/manifest.py"""
import json
import sys
from pathlib import Path
ROOT = Path(__file__).resolve().parents[1]
sys.path.insert(0, str(ROOT / "harness"))
import registry

# property: (specification modules, what the check gives)
EXACT = "TLC checks the theorems of the specification on every case and computes exact results, which the real functions must return to rounding; "
NOTES = {
 "C01": ("Conv", EXACT + "points on a lattice of exact (Pythagorean) directions and every centre offset, plus a dense sweep of random points through the inverse."),
 "C02": ("Conv", EXACT + "points of a lattice of exact directions in all octants, axes, poles and centre, scalars and n-d arrays."),
 "C03": ("Sphere, Arcs", EXACT + "rotations by any angle along great circles, and rotations between exact points of the sphere including poles, antipodes and full turns; rejected arguments enumerated."),
 "C04": ("HealProj", EXACT + "rational heights and longitudes over belt and caps, facet edges and poles."),
 "C05": ("SkyArea", EXACT + "rectangles with exact cosines, additivity as an invariant, every rejected bound."),
 "C06": ("PolarRot, Angles", EXACT + "group laws of whole-cell shifts and interpolated shifts for many grids, on the function and on the four classes."),
 "G01": ("Grids", EXACT + "every small grid and random ones per axis."),
 "G02": ("Grids", EXACT + "every small grid and random ones."),
 "G03": ("Setups", EXACT + "every setup method of every class over mixtures of bounds, counts, centres and options, refusals included."),
 "M03": ("Flatten, GridMap, Grid2Grid", EXACT + "the compiled kernels called directly with lists and grids of every shape."),
 "R06": ("Stream", "TLC enumerates histories of seeding, drawing and other calls and names each answer by its place in the stream; equal names must mean equal answers and equal generator states, different places different answers."),
 "N02": ("Types", "TLC hands the arguments of each call over in every mixture of types with the precision left; the real answers must agree with those for plain floats."),
 "P05": ("Shapes", EXACT + "outlines as vertex walks, every hidden-corner octant of the box."),
 "P01": ("HealIndex", "TLC walks every pixel of every Nside up to a bound ring by ring; the real functions are replayed on all of them."),
 "P02": ("HealIndex, Heal", "TLC derives every pixel's centre and plane indices exactly for every Nside up to a bound; all are compared with the real functions."),
 "P03": ("HealNeigh, Heal", "TLC derives adjacency from shared corners on the sphere for every pixel of every Nside up to a bound; all are compared."),
 "P04": ("HealBound, Heal", "TLC walks the sides of the diamonds of every pixel for many step counts; all are compared."),
 "R01": ("Regions, Counts", "Statistical: TLC gives equal-measure cells of the region and judges observed counts, including serial independence and extreme values of the uniform source (false alarm below 1e-9 per test)."),
 "R02": ("Regions, Counts, Heal", "Statistical: TLC gives the pixel and judges counts in equal-area diamonds."),
 "R03": ("Density, Counts", "The cumulative distribution exactly, the draws statistically."),
 "R04": ("Draws, Counts", "Support exactly, probabilities statistically, judged by TLC."),
 "R05": ("Prefer, Counts", "Outcome table exactly, probabilities statistically, judged by TLC."),
 "M01": ("Rebin", EXACT + "a sweep machine over source and target bins, random uneven bins."),
 "M02": ("Grid2Grid, GridMap", EXACT + "the pixel loop as a transition system in 1-d, 2-d, 3-d, mass conservation as an invariant."),
 "D01": ("BoxMap", "TLC places every subcell centre in the box with bounded fixed-point error and gives the admissible interval of every remapped cell; compared with the real remapper for random fields and weights."),
 "D02": ("CubeMap, Fix, Heal, HealLook", "As D01, for shells of HEALPix pixels, subpixels and periodic images."),
 "D03": ("SkyMap, HealLook, Fix, Heal", "As D01, on the sphere: rotations and pixel lookup in fixed point with an error bound."),
 "D04": ("SkyMap, HealLook, Fix, Heal", "As D03 for longitude-latitude boxes."),
 "D05": ("SkyMap, OrthoView, HealLook, Fix, Heal", "As D03 for orthographic views; transform exactly, on a lattice of directions."),
 "D06": ("PointOfView", EXACT + "views with exact directions."),
 "Q01": ("Radial", EXACT + "random rational fields, weights and errors."),
 "Q02": ("Radial, BoxMap", EXACT + "grids inside and outside the box, on the four classes."),
 "Q03": ("Radial", EXACT + "random edges and profiles."),
 "E01": ("BoxMap, Within", "Statistical: TLC gives each cell's shares of the box pixels with a quadrature bound and judges the weights."),
 "E02": ("CubeMap, Within", "As E01 for cubes and shells."),
 "E03": ("SkyMap, Within", "As E01 on the sphere."),
 "E04": ("SkyMap, Within", "As E01 on the sphere."),
 "H01": ("Life", "TLC enumerates call histories of a life-cycle machine; each is replayed on a real object and every answer compared with a new object given only the setups the specification says count."),
 "H02": ("Life", "As H01, with computed weights as state."),
 "N01": ("Pure", "Every public function and method is called on arrays that are compared afterwards; results and defaults are overwritten and the call repeated."),
 "U01": ("Progress", EXACT + "every loop length and refresh rate up to a bound, all markers and edges."),
 "U02": ("Talk", "TLC enumerates sequences of quiet, verbose and default calls and what may be on the screen after each; the real calls are listened to, and their answers compared."),
 "V01": ("OrthoLines, Shapes, Fix", "TLC reads every recorded drawing back to the sky point by point and judges it against the curves, ticks and labels asked for; outlines exactly."),
}
PENDING = "not built yet"


def main():
    props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in registry.CHECKS:
            na.append({"property": i, "reason": PENDING})
            continue
        spec, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification (%s) checked with TLC; its cases and results replayed into the real code" % spec,
                       "level": "model_checking",
                       "level_note": note + " Trusts TLC, the Python/NumPy runtime and the comparison code in harness/."})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "Checks build a private copy of the package (Fortran included) from /repo's working tree; no hooks are needed."}
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()

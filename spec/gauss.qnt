// Gauss-Legendre nodes (positive half) and weights of order 32, over 10^40; the
// exactness on monomials up to degree 63 is an invariant of the modules using it.
module gauss {
  pure val F: int = 10 ^ 40
  pure val XS: List[int] = [
    483076656877383162348125704405021636908,
    1444719615827964934851863735988106522038,
    2392873622521370745446032091655015206089,
    3318686022821276497799168057301879961958,
    4213512761306353453641194361724264783359,
    5068999089322293900237474743778212301803,
    5877157572407623290407454764018268584509,
    6630442669302152009751151686632383689770,
    7321821187402896803874266650912671466303,
    7944837959679424069630972989704289020955,
    8493676137325699701336930049677425389549,
    8963211557660521239653072437192122684790,
    9349060759377396891709191348354093255287,
    9647622555875064307738119281182749603889,
    9856115115452683354001750446309019786324,
    9972638618494815635449811286650407271385]
  pure val WS: List[int] = [
    965400885147278005667648300635757947369,
    956387200792748594190820022041311005949,
    938443990808045656391802376681172600361,
    911738786957638847128685771116370625449,
    876520930044038111427714627518022875484,
    833119242269467552221990746043486115387,
    781938957870703064717409188283066710398,
    723457941088485062253993564784877916043,
    658222227763618468376500637069387728775,
    586840934785355471452836373001708867501,
    509980592623761761961632446895216952602,
    428358980222266806568786466061255284928,
    342738629130214331026877322523727069948,
    253920653092620594557525897892240292876,
    162743947309056706051705622063866181795,
    70186100094700966004070637388531825134]
  // sum of weights * x^k against 2/(k+1), to 10^-38
  pure val gaussExact: bool = range(0, 32).foldl(true, (ok, h) => {
    val s = range(0, 16).foldl(0, (acc, i) => acc + 2 * WS[i] * range(0, 2 * h).foldl(F, (p, j) => p * XS[i] / F) / F)
    val e = s - 2 * F / (2 * h + 1)
    ok and e < 1000 and -1000 < e })
  // node i (0..31) mapped to [a, b] (fixed point), and its weight times (b-a)/2
  pure def node(i: int, a: int, b: int): int =
    if (i < 16) (a + b) / 2 + (b - a) * XS[i] / (2 * F) else (a + b) / 2 - (b - a) * XS[i - 16] / (2 * F)
  pure def wt(i: int, a: int, b: int): int = (b - a) * WS[if (i < 16) i else i - 16] / (2 * F)
  pure def gl(a: int, b: int, f: int => int): int =
    range(0, 32).foldl(0, (acc, i) => acc + wt(i, a, b) * f(node(i, a, b)) / F)
  pure def gl2(a: int, b: int, f: int => int): int =
    range(0, 32).foldl(0, (acc, i) => acc + wt(i, a, b) * f(node(i, a, b)) / F)
  // the same of order 16
  pure val X16: List[int] = [950125098376374401853193354249580631304, 2816035507792589132304605014604961064861, 4580167776572273863424194429835775735400, 6178762444026437484466717640487910189919, 7554044083550030338951011948474422683538, 8656312023878317438804678977123931323873, 9445750230732325760779884155346083450911, 9894009349916499325961541734503326274263]
  pure val W16: List[int] = [1894506104550684962853967232082831051469, 1826034150449235888667636679692199393836, 1691565193950025381893120790303599622116, 1495959888165767320815017305474785489705, 1246289712555338720524762821920164201449, 951585116824927848099251076022462263553, 622535239386478928628438369943776942750, 271524594117540948517805724560181035123]
  pure val gauss16Exact: bool = range(0, 16).foldl(true, (ok, h) => {
    val s = range(0, 8).foldl(0, (acc, i) => acc + 2 * W16[i] * range(0, 2 * h).foldl(F, (p, j) => p * X16[i] / F) / F)
    val e = s - 2 * F / (2 * h + 1)
    ok and e < 1000 and -1000 < e })
  pure def node16(i: int, a: int, b: int): int =
    if (i < 8) (a + b) / 2 + (b - a) * X16[i] / (2 * F) else (a + b) / 2 - (b - a) * X16[i - 8] / (2 * F)
  pure def wt16(i: int, a: int, b: int): int = (b - a) * W16[if (i < 8) i else i - 8] / (2 * F)
  // square root of an integer
  pure def isqrt(x: int): int = if (x <= 0) 0 else {
    pure val s = range(0, 400).foldl(1, (y, i) => if (y * y > x) y else y * 2)
    range(0, 20).foldl(s, (y, i) => { pure val z = (y + x / y) / 2  if (z < y) z else y }) }
}

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],"mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(obs),"hook_needed":None}})
I="include/lsst/sphgeom/"; S="src/"
p("C01","RangeSet operations compute exact set algebra",
  "A RangeSet denotes a set of unsigned 64-bit integers, and inserting, erasing, complementing, intersecting, uniting, subtracting and symmetrically subtracting range sets (in place, by operator, with one range or a whole set, and when an operand is the object itself) yields exactly the integers the corresponding set operation demands, over the whole domain 0..2^64-1. The predicates isWithin, contains, intersects and isDisjointFrom, and equality, answer exactly the corresponding questions about those sets. A range whose end is 0 extends to 2^64, a range given as (first, last) with first > last wraps around, and equal nonzero ends denote the empty or full range as documented.",
  ["inputs","histories"],"all range sets of any number of ranges, all ranges, all operation sequences, every integer",
  "tests use a few hand-picked range sets; wrap-around at 0 and 2^64, adjacency, aliasing of operands and the galloping search in long lists depend on the position of every bound",
  [S+"RangeSet.cc",I+"RangeSet.h"],[("sorted list of range bounds, parity/offset trick","src/RangeSet.cc"),("merge recursion _intersectOne/_intersect","src/RangeSet.cc")],
  [("_ranges","strictly increasing bounds, first and last 0",I+"RangeSet.h"),("_begin/_offset","whether the first range starts at 0",I+"RangeSet.h")],["RangeSet public methods"])
p("C02","RangeSet representation, iteration, simplification and scaling are exact",
  "After any sequence of operations a RangeSet is valid: iterating it yields non-empty, disjoint, non-adjacent ranges in increasing order whose union is exactly the denoted set, and size, empty, full and cardinality agree with it. simplify(n) replaces every range by the smallest enclosing range whose bounds are multiples of 2^n (merging as needed), scale(i) maps every range [a,b) to [a*i, b*i) saturating as documented, and complement is an involution. Iterator arithmetic and comparisons behave as random access over that sequence of ranges.",
  ["inputs","histories"],"all range sets, all n, all factors, all operation sequences, all iterator offsets",
  "tests check a handful of sets; overflow of the scaled or rounded bounds past 2^64 and merging after rounding need specific bounds",
  [S+"RangeSet.cc",I+"RangeSet.h"],[("isValid, simplify, scale, cardinality",S+"RangeSet.cc"),("Iterator",I+"RangeSet.h")],[("_ranges","strictly increasing bounds",I+"RangeSet.h")],["RangeSet::begin/end/size/cardinality/simplify/scale/isValid"])
p("C03","Morton and Hilbert curve indices are exact inverses with the curve property",
  "mortonIndex interleaves the bits of x and y exactly, mortonIndexInverse undoes it, and mortonToHilbert/hilbertToMorton and hilbertIndex/hilbertIndexInverse are mutually inverse bijections on the 2^m x 2^m grid for every order m up to 32. Cells with consecutive Hilbert indices are always edge-adjacent, and the Hilbert index of order m refines that of order m-1 (indices sharing a prefix share a parent cell). log2 of any nonzero integer is the position of its highest set bit; SIMD and portable variants of these functions agree.",
  ["inputs","configurations"],"all 32-bit coordinates, all 64-bit indices, all orders, with and without SIMD",
  "tests check small orders and random samples; a wrong entry of a look-up table or a wrong mask bit shows only for particular high coordinates",
  [I+"curve.h"],[("look-up tables and bit spreading",I+"curve.h")],(),["mortonIndex","hilbertIndex","hilbertIndexInverse","mortonToHilbert","hilbertToMorton","log2"])
p("C04","BigInteger arithmetic is exact",
  "After any sequence of setTo, negate, add, subtract, multiply and multiplyPow2, a BigInteger equals the exact mathematical integer result, whatever the operands' signs, lengths and zero-ness, including when operands alias the result, and it is normalized (no leading zero digit, sign 0 exactly for zero). No operation reads or writes outside the digit buffer when the stated capacity is available, and operations with insufficient capacity throw.",
  ["inputs","histories"],"all integers of any digit count, all operand orders and aliasings, all shift amounts",
  "tests use small or random values; carries that ripple over many digits, normalization after cancellation and 32-bit boundary shifts depend on rare digit patterns",
  [S+"BigInteger.cc",I+"BigInteger.h"],[("schoolbook digit loops with carries",S+"BigInteger.cc")],[("_digits,_size,_sign","sign-magnitude little-endian base 2^32",I+"BigInteger.h")],["BigInteger::add/subtract/multiply/multiplyPow2/setTo/checkCapacity"])
p("C05","orientation returns the exact sign of the 3x3 determinant",
  "orientation(a,b,c), orientationExact and the orientationX/Y/Z specialisations return exactly the sign of the real determinant a.(b x c) of the given double components, never a rounded one, for all unit vectors and (for the exact variant) all finite vectors. Consequently swapping two arguments negates the result, cyclic permutation preserves it, and degenerate (coplanar or repeated) arguments give 0.",
  ["inputs"],"all finite component values of the vectors",
  "tests evaluate a few hundred near-degenerate triples; a wrong error bound or an under-sized exact accumulator only matters on measure-zero or wide-exponent inputs",
  [S+"orientation.cc",I+"orientation.h",S+"BigInteger.cc"],[("floating point filter with error bound, then exact big integer expansion",S+"orientation.cc")],(),["orientation","orientationExact","orientationX","orientationY","orientationZ"])
p("C06","Interval1d and AngleInterval obey closed-interval algebra",
  "For all bounds (including reversed, infinite, NaN, signed zero), contains, isDisjointFrom, intersects, isWithin and relate (all three bits) describe exactly the point sets {p : a <= p <= b}; clipping gives the exact intersection and expanding the smallest interval containing both operands, for interval and scalar operands, in place and by copy. Dilation moves both bounds by the given amount (erosion is dilation by its negative), an empty interval or NaN amount leaves the interval unchanged, and equality is equality of point sets with all empty intervals equal.",
  ["inputs"],"all double bounds of both operands and every double point",
  "tests use a few intervals; orderings of four bounds with coincident endpoints, NaN and infinities multiply",
  [I+"Interval.h",I+"Interval1d.h",I+"AngleInterval.h"],[("endpoint comparisons",I+"Interval.h")],(),["Interval methods"])
p("C07","NormalizedAngleInterval obeys circular interval algebra, including wrap-around",
  "For all normalized bounds (wrapping or not, points, empty, full), contains, isDisjointFrom, intersects, isWithin and relate describe exactly the sets of angles on the circle denoted by the intervals. clipTo returns an interval that contains the intersection and is contained in one of the operands, exact whenever the intersection is a single interval; expandTo returns an interval containing both operands and no larger than necessary (full only if needed). Construction from arbitrary angles, fromDegrees/fromRadians and dilation yield valid intervals: every non-empty interval has both bounds in [0, 2*pi], dilation by a non-negative amount contains the original, and empty/full are recognised consistently.",
  ["inputs"],"all pairs of circular intervals and every angle on the circle",
  "tests walk a coarse list of intervals; the wrap-around case analysis has a large number of orderings of endpoints with ties",
  [S+"NormalizedAngleInterval.cc",I+"NormalizedAngleInterval.h"],[("wrap-around case analysis",S+"NormalizedAngleInterval.cc")],(),["NormalizedAngleInterval methods"])
p("C08","Box (longitude-latitude rectangle) invariants and relations hold",
  "A Box's latitude interval always lies in [-pi/2, pi/2] and its longitude and latitude intervals are empty together; contains, intersects, isWithin, isDisjointFrom, relate and equality with points and boxes describe exactly the product of the two intervals. clipTo and expandTo with points and boxes keep those invariants; a clipped box contains all common points, its latitudes lie in both operands and its longitudes in at least one of them, and an expanded box contains both operands. Dilation by a positive radius yields a box containing the original that is full in longitude when it touches a pole, and dilation by non-positive or NaN amounts never adds points outside the original.",
  ["inputs","histories"],"all boxes and points, all chains of clip and expand",
  "tests use a few boxes; the invariants depend on every combination of empty, full, wrapping longitude and clamped latitude",
  [S+"Box.cc",I+"Box.h"],[("_enforceInvariants",I+"Box.h")],[("_lon,_lat","component intervals",I+"Box.h")],["Box methods"])
p("C09","Box3d is an exact product of three intervals",
  "Box3d construction, contains, isDisjointFrom, intersects, isWithin, relate, equality, clipping and expansion with points and boxes describe exactly the product of its three closed intervals; a box is empty exactly when any of its component intervals is, and then all are. Dilation/erosion per axis or uniformly acts on every axis independently.",
  ["inputs"],"all double bounds of both boxes and every 3-d point",
  "tests use a few boxes with ordinary coordinates",
  [I+"Box3d.h",S+"Box3d.cc"],[("_enforceInvariants",I+"Box3d.h")],(),["Box3d methods"])
p("C10","Region encoding round-trips and malformed bytes are rejected safely",
  "Decoding the encoding of any Box, Circle, Ellipse, ConvexPolygon, UnionRegion or IntersectionRegion (nested arbitrarily) restores the same region bit for bit, through the class's own decode and through Region::decode. Decoding any other byte string of any length either yields a region or throws an exception; it never reads outside the given bytes, and the byte order is little-endian IEEE on every build variant.",
  ["inputs","configurations"],"all regions, all byte strings of every length, both optimised and portable codecs",
  "tests decode a few valid encodings; truncated or corrupted inputs and the portable code path are hardly sampled",
  [I+"codec.h",S+"Region.cc",S+"Box.cc",S+"Circle.cc",S+"Ellipse.cc",S+"ConvexPolygon.cc",S+"CompoundRegion.cc"],[("encodeDouble/decodeDouble/encodeU64/decodeU64",I+"codec.h"),("length and type code checks",S+"*.cc")],(),["Region::encode","Region::decode"])
p("C11","Compound regions and relationships combine operands soundly",
  "A union (intersection) region contains a point exactly when at least one (both) operands do, and every relationship bit reported between a union or intersection and another region, and between regions via double dispatch, is implied by set theory from correct operand answers (DISJOINT, CONTAINS and WITHIN are never claimed falsely); a union reports DISJOINT (WITHIN) exactly when both operands do and CONTAINS exactly when either does, and dually an intersection reports DISJOINT (WITHIN) exactly when either operand does and CONTAINS exactly when both do. invert swaps CONTAINS and WITHIN and keeps DISJOINT; cloning and operand access preserve the operands; bounding volumes of compounds enclose or clip the operands' bounding volumes consistently.",
  ["inputs"],"all operand answers consistent with some pair of sets, all points",
  "tests relate a few concrete shapes and cannot cover every consistent combination of operand answers",
  [S+"CompoundRegion.cc",I+"CompoundRegion.h",I+"Relationship.h"],[("relate combinators",S+"CompoundRegion.cc")],(),["UnionRegion::relate","IntersectionRegion::relate","invert"])
p("C12","Pixel indices of HTM, Q3C and MQ3C are valid, nested and consistently decoded",
  "For every point, index(v) is an index of the pixelization's universe, and at every level an index is valid exactly when level(index) says so; the ancestor of a point's index (dropping two bits) is the point's index at the coarser level. neighborhood(i) is a sorted duplicate-free set of valid indices of the same level that contains i and is symmetric; the string form determines the index; invalid levels and indices are rejected with an exception.",
  ["inputs"],"all levels, all 64-bit indices, all unit vectors",
  "tests sample low levels and a few hundred pixels; face-edge and corner wrap-around of neighborhoods and level limits are specific indices",
  [S+"HtmPixelization.cc",S+"Q3cPixelization.cc",S+"Mq3cPixelization.cc",S+"Q3cPixelizationImpl.h"],[("bit manipulation of root, face and quadrant codes",S+"*.cc")],(),["level","index","neighborhood","asString","universe","quad"])
p("C13","Pixel finder envelopes cover and interiors stay inside, within maxRanges",
  "The envelope of a region contains every pixel whose relation to the region is not disjoint and the interior contains only pixels within the region, with respect to the pixel relations the traversal consults, and the envelope always contains the interior. Limiting the number of ranges only enlarges an envelope and only shrinks an interior, keeps the result inside the universe of pixels, and yields at most the requested number of ranges.",
  ["inputs"],"all subdivision levels, all consistent answers of the pixel/region relation, all maxRanges",
  "tests look at a few circles and levels; coarsening under maxRanges depends on traversal order and shape",
  [S+"PixelFinder.h",S+"HtmPixelization.cc",S+"Q3cPixelization.cc",S+"Mq3cPixelization.cc"],[("quad-tree traversal with coarsening",S+"PixelFinder.h")],(),["Pixelization::envelope","Pixelization::interior"])
p("C14","Chunker numbering is a consistent partition",
  "Chunk and sub-chunk ids and their (stripe, chunk, sub-stripe, sub-chunk) coordinates are mutually inverse for every chunker with up to 32768 stripes whose identifiers fit in 32 bits; valid(id) accepts exactly the ids of chunks that exist and getAllChunks/getAllSubChunks list exactly those, once each. Sub-chunk ids are unique within a chunk, and constructing a chunker with non-positive or excessive stripe counts throws.",
  ["inputs","configurations"],"all stripe and sub-stripe counts up to the limits, all ids",
  "tests use one or two chunkers",
  [S+"Chunker.cc",I+"Chunker.h"],[("id arithmetic",I+"Chunker.h")],(),["Chunker::getStripe/getChunk/_getChunkId/valid/getAllChunks/getAllSubChunks"])
p("C15","Angle and coordinate values stay in their domains",
  "A NormalizedAngle built from any angle is NaN or in [0, 2*pi] (and equal to the argument when that already is in range); a LonLat's latitude is in [-pi/2, pi/2] or the constructor throws, and its longitude is normalized. Angle arithmetic, comparisons, conversions and angular differences (getAngleTo, between, center) act exactly as the corresponding operations on radians, with getAngleTo in [0, 2*pi]. Normalizing a vector throws exactly for the zero vector, and otherwise keeps the sign and the order of magnitude of the components, yields components in [-1, 1], gives the same result in the SIMD and the portable variant, and touches no memory outside the vector, for every component value including NaN.",
  ["inputs"],"all doubles including infinities, NaN, subnormals and signed zeros",
  "tests use a few angles; results of fmod, rounding up to exactly 2*pi and tiny negative inputs need specific values",
  [S+"NormalizedAngle.cc",I+"NormalizedAngle.h",I+"Angle.h",S+"LonLat.cc",I+"LonLat.h",S+"Vector3d.cc"],[("fmod normalization",S+"NormalizedAngle.cc")],(),["NormalizedAngle","LonLat","Angle","Vector3d::normalize"])
p("C16","ConvexPolygon point containment and equality follow its edges exactly",
  "A ConvexPolygon contains a unit vector exactly when the vector is on or to the left of every directed edge by the exact orientation predicate, for any number of vertices. Equality of polygons is equality of vertex cycles up to rotation, and isWithin, isDisjointFrom and intersects derived from relate agree with the relation's bits.",
  ["inputs"],"all vertex lists of any length and all unit vectors",
  "tests use small regular polygons",
  [S+"ConvexPolygon.cc",S+"ConvexPolygonImpl.h",I+"ConvexPolygon.h"],[("orientation loop over edges",S+"ConvexPolygonImpl.h")],(),["ConvexPolygon::contains","ConvexPolygon::operator=="])
p("C17","Bounding circles, boxes and 3-d boxes of a region contain the region",
  "For every circle, ellipse, convex polygon and box, the bounding circle, bounding longitude-latitude box and bounding 3-d box contain every unit vector that the region contains. Conservative spherical relations between circles, ellipses, polygons and boxes never claim containment or disjointness falsely beyond the documented rounding tolerance.",
  ["inputs"],"all regions and unit vectors",
  "tests sample points; the guarantee depends on the rounding errors of sin, cos, atan2, asin and sqrt",
  [S+"Circle.cc",S+"Ellipse.cc",S+"ConvexPolygonImpl.h",S+"Box.cc",S+"utils.cc"],[("padding by MAX_*_ERROR constants",S+"*.cc")],(),["Region::getBoundingCircle/getBoundingBox/getBoundingBox3d"])
p("C18","A pixel's polygon contains the points indexed to it",
  "For every pixelization, level and unit vector v, the polygon pixel(index(v)) contains v up to the documented rounding, and the pixels of a level tile the sphere without gaps.",
  ["inputs"],"all levels and unit vectors",
  "tests sample pixel centres",
  [S+"HtmPixelization.cc",S+"Q3cPixelization.cc",S+"Mq3cPixelization.cc"],[("projection formulas and triangle subdivision in floating point",S+"*.cc")],(),["Pixelization::pixel","Pixelization::index"])
p("C19","The Python interface exposes the same semantics as the C++ library",
  "Every Python method returns what the C++ function returns for the same arguments, pickling and YAML round-trip every object, and Python-level set operations on RangeSet, regions and intervals agree with the C++ ones.",
  ["inputs"],"all Python-visible objects and arguments",
  "tests call each binding once or twice",
  ["python/lsst/sphgeom/*.cc","python/lsst/sphgeom/*.py"],[("pybind11 wrappers","python/lsst/sphgeom/*.cc")],(),["lsst.sphgeom"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))

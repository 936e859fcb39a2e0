// A region about which nothing is known but its answers.
#pragma once
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/Region.h"
namespace {
struct Mock final : public lsst::sphgeom::Region {
    int id;
    std::vector<std::uint8_t> enc;
    unsigned rel = 0;
    bool has = false;
    lsst::sphgeom::Box box;
    lsst::sphgeom::Box3d box3;
    lsst::sphgeom::Circle circle;
    explicit Mock(int i) : id(i) {}
    std::unique_ptr<lsst::sphgeom::Region> clone() const override { return std::unique_ptr<lsst::sphgeom::Region>(new Mock(*this)); }
    lsst::sphgeom::Box getBoundingBox() const override { return box; }
    lsst::sphgeom::Box3d getBoundingBox3d() const override { return box3; }
    lsst::sphgeom::Circle getBoundingCircle() const override { return circle; }
    using lsst::sphgeom::Region::contains;
    bool contains(lsst::sphgeom::UnitVector3d const &) const override { return has; }
    lsst::sphgeom::Relationship relate(lsst::sphgeom::Region const &) const override { return lsst::sphgeom::Relationship(rel); }
    lsst::sphgeom::Relationship relate(lsst::sphgeom::Box const &) const override { return lsst::sphgeom::Relationship(rel); }
    lsst::sphgeom::Relationship relate(lsst::sphgeom::Circle const &) const override { return lsst::sphgeom::Relationship(rel); }
    lsst::sphgeom::Relationship relate(lsst::sphgeom::ConvexPolygon const &) const override { return lsst::sphgeom::Relationship(rel); }
    lsst::sphgeom::Relationship relate(lsst::sphgeom::Ellipse const &) const override { return lsst::sphgeom::Relationship(rel); }
    std::vector<std::uint8_t> encode() const override { return enc; }
};
}  // namespace

// The library as an application includes it. Areas need an old GEOS and are left out.
#ifndef VERIF_OSMIUM_ALL_HPP
#define VERIF_OSMIUM_ALL_HPP
#include <cassert>
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <new>
#define OSMIUM_OSM_AREA_HPP
#ifndef OSMIUM_WITH_PBF_INPUT
# define OSMIUM_WITH_PBF_INPUT
#endif
#ifndef OSMIUM_WITH_XML_INPUT
# define OSMIUM_WITH_XML_INPUT
#endif
#include <osmium.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <osmium/output/pbf.hpp>
#include <osmium/output/xml.hpp>
#endif

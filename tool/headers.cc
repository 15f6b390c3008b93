// Parsed with /repo's headers so that inline functions no library source uses are analysed too.
#include "GenericContainer/GenericContainer.hh"
#include "GenericContainer/GenericContainerInterface_json.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
#include "GenericContainer/GenericContainerInterface_C.h"
template class GC_namespace::mat_type<GC_namespace::int_type>;
template class GC_namespace::mat_type<GC_namespace::long_type>;
template class GC_namespace::mat_type<GC_namespace::real_type>;
template class GC_namespace::mat_type<GC_namespace::complex_type>;

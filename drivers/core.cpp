// Analysis driver: instantiates every class template of the framework once so
// that the extractor sees resolved calls in all their members.  Never linked.
#include <vector>
#include <map>
#include <string>
#include "gridpack/math/math.hpp"
#include "gridpack/applications/components/pf_matrix/pf_components.hpp"
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/parallel/shuffler.hpp"
#include "gridpack/parallel/ga_shuffler.hpp"
#include "gridpack/parallel/global_store.hpp"
#include "gridpack/parallel/global_vector.hpp"
#include "gridpack/parallel/task_manager.hpp"
#include "gridpack/parallel/index_hash.hpp"
#include "gridpack/network/base_network.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/mapper/full_map.hpp"
#include "gridpack/mapper/bus_vector_map.hpp"
#include "gridpack/mapper/gen_matrix_map.hpp"
#include "gridpack/mapper/gen_vector_map.hpp"
#include "gridpack/mapper/gen_slab_map.hpp"
#include "gridpack/serial_io/serial_io.hpp"
#include "gridpack/parser/hash_distr.hpp"
#include "gridpack/parser/bus_table.hpp"
#include "gridpack/parser/PTI23_parser.hpp"
#include "gridpack/parser/PTI33_parser.hpp"
#include "gridpack/parser/PTI34_parser.hpp"
#include "gridpack/parser/PTI35_parser.hpp"
#include "gridpack/parser/MAT_parser.hpp"
#include "gridpack/export/PSSE23Export.hpp"
#include "gridpack/export/PSSE33Export.hpp"
#include "gridpack/export/PSSE34Export.hpp"
#include "gridpack/analysis/network_analytics.hpp"
namespace gp = gridpack;
typedef gp::powerflow::PFBus DBus;
typedef gp::powerflow::PFBranch DBranch;
struct DrvPod { int idx; double val; };
typedef gp::network::BaseNetwork<DBus, DBranch> Net;
template class gp::network::BaseNetwork<DBus, DBranch>;
template class gp::factory::BaseFactory<Net>;
template class gp::mapper::FullMatrixMap<Net>;
template class gp::mapper::BusVectorMap<Net>;
template class gp::mapper::GenMatrixMap<Net>;
template class gp::mapper::GenVectorMap<Net>;
template class gp::mapper::GenSlabMap<Net>;
template class gp::serial_io::SerialBusIO<Net>;
template class gp::serial_io::SerialBranchIO<Net>;
template class gp::hash_distr::HashDistribution<Net, DrvPod, DrvPod>;
template class gp::bus_table::BusTable<Net>;
template class gp::parser::BasePTIParser<Net>;
template class gp::parser::PTI23_parser<Net>;
template class gp::parser::PTI33_parser<Net>;
template class gp::parser::PTI34_parser<Net>;
template class gp::parser::PTI35_parser<Net>;
template class gp::parser::MAT_parser<Net>;
template class gp::expnet::PSSE23Export<Net>;
template class gp::expnet::PSSE33Export<Net>;
template class gp::expnet::PSSE34Export<Net>;
template class gp::analysis::NetworkAnalytics<Net>;
template class gp::parallel::GlobalVector<double>;
template class gp::parallel::GlobalStore<double>;
struct DrvThing { int a; template <class A> void serialize(A &ar, const unsigned int) { ar & a; } };
template class gridpack::parallel::Shuffler<DrvThing, int>;
template class gridpack::parallel::gaShuffler<DrvThing, int>;

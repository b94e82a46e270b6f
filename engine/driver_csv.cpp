// Instantiates the report of the edge recorder. Analysed only, never linked or run.
#include "edgeinfo/csv_record.hpp"

namespace rocnnet_record
{
template void csv_record::to_csv<double> (const nnet::iconnector<double>*) const;
}

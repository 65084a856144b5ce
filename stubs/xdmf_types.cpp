// Instantiates the type deduction of the XDMF writer for the element types (static analysis only).
#include <type_traits>
#include "XdmfUniformGridWriter.h"
template void XdmfUniformGridWriter::deduce_attribute_number_type<int>(int*, std::string&, std::string&);
template void XdmfUniformGridWriter::deduce_attribute_number_type<float>(float*, std::string&, std::string&);
template void XdmfUniformGridWriter::deduce_attribute_number_type<double>(double*, std::string&, std::string&);
template void XdmfUniformGridWriter::deduce_attribute_number_type<long>(long*, std::string&, std::string&);
template void XdmfUniformGridWriter::deduce_attribute_number_type<short>(short*, std::string&, std::string&);
template void XdmfUniformGridWriter::deduce_attribute_number_type<char>(char*, std::string&, std::string&);
template void XdmfUniformGridWriter::deduce_attribute_number_type<unsigned>(unsigned*, std::string&, std::string&);
template void XdmfUniformGridWriter::deduce_attribute_number_type<long double>(long double*, std::string&, std::string&);

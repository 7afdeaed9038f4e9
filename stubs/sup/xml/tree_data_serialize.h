#ifndef VSTUB_SUP_XML_TREE_DATA_SERIALIZE_H_
#define VSTUB_SUP_XML_TREE_DATA_SERIALIZE_H_
#include <sup/xml/tree_data.h>
namespace sup
{
namespace xml
{
void TreeDataToFile(const std::string& filename, const TreeData& data);
std::string TreeDataToString(const TreeData& data);
}  // namespace xml
}  // namespace sup
#endif

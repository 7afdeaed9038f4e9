#ifndef VSTUB_SUP_XML_TREE_DATA_PARSER_H_
#define VSTUB_SUP_XML_TREE_DATA_PARSER_H_
#include <sup/xml/tree_data.h>
namespace sup
{
namespace xml
{
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename);
std::unique_ptr<TreeData> TreeDataFromString(const std::string& xml);
}  // namespace xml
}  // namespace sup
#endif

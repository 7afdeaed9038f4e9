#ifndef VSTUB_SUP_XML_TREE_DATA_H_
#define VSTUB_SUP_XML_TREE_DATA_H_
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sup
{
namespace xml
{
class TreeData
{
public:
  explicit TreeData(const std::string& node_name);
  ~TreeData();
  TreeData(const TreeData&);
  TreeData(TreeData&&);
  TreeData& operator=(const TreeData&);
  TreeData& operator=(TreeData&&);
  const std::string& GetNodeName() const;
  std::string GetContent() const;
  void SetContent(const std::string& content);
  bool HasAttribute(const std::string& name) const;
  std::string GetAttribute(const std::string& name) const;
  void AddAttribute(const std::string& name, const std::string& value);
  const std::vector<std::pair<std::string, std::string>>& Attributes() const;
  const std::vector<TreeData>& Children() const;
  int GetNumberOfChildren() const;
  int GetNumberOfAttributes() const;
  void AddChild(const TreeData& child);
  bool operator==(const TreeData& other) const;
  bool operator!=(const TreeData& other) const;

private:
  std::string m_name;
  std::string m_content;
  std::vector<std::pair<std::string, std::string>> m_attributes;
  std::vector<TreeData> m_children;
};
}  // namespace xml
}  // namespace sup
#endif

#ifndef VSTUB_SUP_CLI_COMMAND_LINE_PARSER_H_
#define VSTUB_SUP_CLI_COMMAND_LINE_PARSER_H_
#include <string>
#include <vector>
namespace sup
{
namespace cli
{
class CommandLineOption
{
public:
  CommandLineOption& SetParameter(bool);
  CommandLineOption& SetValueName(const std::string&);
  CommandLineOption& SetRequired(bool);
  CommandLineOption& SetDefaultValue(const std::string&);
};
class CommandLineParser
{
public:
  CommandLineParser();
  ~CommandLineParser();
  void SetDescription(const std::string& header, const std::string& footer);
  CommandLineOption& AddHelpOption();
  CommandLineOption& AddOption(const std::vector<std::string>& names, const std::string& descr);
  bool Parse(int argc, const char* const* argv);
  bool IsSet(const std::string& name) const;
  std::string GetUsageString() const;
  template <typename T>
  T GetValue(const std::string& name) const;
};
}  // namespace cli
}  // namespace sup
#endif

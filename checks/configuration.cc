// Configuration: every value arrives where it belongs, and nothing else
// changes; dictionaries return what was written and insist on every key being
// used exactly once.
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/config.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/mapping/map_builder_interface.h"
#include "cartographer/mapping/trajectory_builder_interface.h"
#include "google/protobuf/message.h"
#include "mc.h"

namespace {

using namespace cartographer;
using common::LuaParameterDictionary;
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;

std::unique_ptr<common::FileResolver> Resolver() {
  return absl::make_unique<common::ConfigurationFileResolver>(
      std::vector<std::string>{common::kConfigurationFilesDirectory});
}

// What all fields of a message are.
using Fields = std::map<std::string, std::string>;

std::string Print(const double value) {
  char buffer[50];
  snprintf(buffer, sizeof(buffer), "%.6g", value);
  return buffer;
}

void Flatten(const Message& message, const std::string& prefix, Fields* const fields) {
  const auto* const d = message.GetDescriptor();
  const auto* const r = message.GetReflection();
  for (int i = 0; i != d->field_count(); ++i) {
    const FieldDescriptor* const f = d->field(i);
    const int count = f->is_repeated() ? r->FieldSize(message, f) : 1;
    for (int k = 0; k != count; ++k) {
      const std::string name =
          prefix + f->name() + (f->is_repeated() ? "_" + std::to_string(k) : "");
      const bool rep = f->is_repeated();
      switch (f->cpp_type()) {
        case FieldDescriptor::CPPTYPE_MESSAGE:
          if (!rep && !r->HasField(message, f)) break;
          (*fields)[name] = "present";
          Flatten(rep ? r->GetRepeatedMessage(message, f, k) : r->GetMessage(message, f),
                  name + ".", fields);
          break;
        case FieldDescriptor::CPPTYPE_DOUBLE:
          (*fields)[name] =
              Print(rep ? r->GetRepeatedDouble(message, f, k) : r->GetDouble(message, f));
          break;
        case FieldDescriptor::CPPTYPE_FLOAT:
          (*fields)[name] =
              Print(rep ? r->GetRepeatedFloat(message, f, k) : r->GetFloat(message, f));
          break;
        case FieldDescriptor::CPPTYPE_INT32:
          (*fields)[name] =
              Print(rep ? r->GetRepeatedInt32(message, f, k) : r->GetInt32(message, f));
          break;
        case FieldDescriptor::CPPTYPE_INT64:
          (*fields)[name] =
              Print(rep ? r->GetRepeatedInt64(message, f, k) : r->GetInt64(message, f));
          break;
        case FieldDescriptor::CPPTYPE_UINT32:
          (*fields)[name] =
              Print(rep ? r->GetRepeatedUInt32(message, f, k) : r->GetUInt32(message, f));
          break;
        case FieldDescriptor::CPPTYPE_UINT64:
          (*fields)[name] =
              Print(rep ? r->GetRepeatedUInt64(message, f, k) : r->GetUInt64(message, f));
          break;
        case FieldDescriptor::CPPTYPE_BOOL:
          (*fields)[name] =
              (rep ? r->GetRepeatedBool(message, f, k) : r->GetBool(message, f)) ? "true" : "false";
          break;
        case FieldDescriptor::CPPTYPE_ENUM:
          (*fields)[name] = (rep ? r->GetRepeatedEnum(message, f, k) : r->GetEnum(message, f))->name();
          break;
        case FieldDescriptor::CPPTYPE_STRING:
          (*fields)[name] = rep ? r->GetRepeatedString(message, f, k) : r->GetString(message, f);
          break;
      }
    }
  }
}

// A value of the configuration.
struct Value {
  std::string path, type, value;
};

std::vector<Value> ListValues(const std::string& code, const std::string& table) {
  const std::string list = code + R"(
    local result = {}
    local function walk(prefix, t)
      local keys = {}
      for k in pairs(t) do table.insert(keys, k) end
      table.sort(keys)
      for _, k in ipairs(keys) do
        local v = t[k]
        if type(v) == "table" then
          walk(prefix .. k .. ".", v)
        else
          table.insert(result, prefix .. k)
          table.insert(result, type(v))
          table.insert(result, type(v) == "number" and string.format("%.6g", v) or tostring(v))
        end
      end
    end
    walk("", )" + table + R"()
    return result)";
  auto dictionary = LuaParameterDictionary::NonReferenceCounted(list, Resolver());
  const std::vector<std::string> strings = dictionary->GetArrayValuesAsStrings();
  std::vector<Value> values;
  for (size_t i = 0; i + 2 < strings.size(); i += 3) {
    values.push_back({strings[i], strings[i + 1], strings[i + 2]});
  }
  return values;
}

// Another value which is valid, too.
std::string Changed(const Value& value) {
  if (value.type == "boolean") return value.value == "true" ? "false" : "true";
  if (value.type == "string") {
    return "changed";
  }
  const double number = std::stod(value.value);
  return Print(number == std::floor(number) ? number + 1. : 0.9375 * number);
}

// The name of the field for the value.
std::string FieldOf(const std::string& path, const Fields& fields) {
  std::string result;
  size_t begin = 0;
  while (true) {
    const size_t end = path.find('.', begin);
    const std::string part = path.substr(begin, end == std::string::npos ? end : end - begin);
    if (end == std::string::npos) return result + part;
    const std::string dimension = part.size() > 3 ? part.substr(part.size() - 3) : "";
    const std::string infix = part.substr(0, part.size() - dimension.size()) + "_options" + dimension;
    std::string name = part;
    for (const std::string& candidate :
         {part + "_options", infix, part + "_options_2d", part + "_options_3d"}) {
      if (fields.count(result + candidate)) {
        name = candidate;
        break;
      }
    }
    result += name;
    result += ".";
    begin = end + 1;
  }
}

Fields MapBuilderFields(const std::string& code) {
  LuaParameterDictionary dictionary(code + "\nreturn MAP_BUILDER", Resolver());
  Fields fields;
  Flatten(mapping::CreateMapBuilderOptions(&dictionary), "", &fields);
  return fields;
}
Fields TrajectoryBuilderFields(const std::string& code) {
  LuaParameterDictionary dictionary(code + "\nreturn TRAJECTORY_BUILDER", Resolver());
  Fields fields;
  Flatten(mapping::CreateTrajectoryBuilderOptions(&dictionary), "", &fields);
  return fields;
}

void CheckOptions(const bool map_builder, const bool pairs) {
  const std::string table = map_builder ? "MAP_BUILDER" : "TRAJECTORY_BUILDER";
  std::string code = map_builder ? "include \"map_builder.lua\"\n"
                                 : "include \"trajectory_builder.lua\"\n";
  const bool optional = mc::flip();
  if (map_builder) {
    code += "MAP_BUILDER.use_trajectory_builder_2d = true\n";
    if (optional) {
      code +=
          "MAP_BUILDER.pose_graph.overlapping_submaps_trimmer_2d = {\n"
          "  fresh_submaps_count = 3, min_covered_area = 2.3,\n"
          "  min_added_submaps_count = 7 }\n";
    }
  } else if (optional) {
    code +=
        "TRAJECTORY_BUILDER.pure_localization_trimmer = { max_submaps_to_keep = 4 }\n"
        "TRAJECTORY_BUILDER.pose_graph_odometry_motion_filter = { max_time_seconds = 7.25,\n"
        "  max_distance_meters = 8.5, max_angle_radians = 0.375 }\n";
  }
  static std::map<std::string, std::vector<Value>> lists;
  static std::map<std::string, Fields> bases;
  const auto create = [&](const std::string& code) {
    return map_builder ? MapBuilderFields(code) : TrajectoryBuilderFields(code);
  };
  if (!lists.count(code)) {
    lists[code] = ListValues(code, table);
    bases[code] = create(code);
  }
  const std::vector<Value>& values = lists[code];
  Fields want = bases[code];

  // Values as they are.
  std::string changed_code = code;
  const int n = pairs ? 2 : 1;
  int first = -1;
  for (int k = 0; k != n; ++k) {
    const int i = mc::choose(values.size());
    if (i <= first) mc::prune();
    first = i;
    const Value& value = values[i];
    MC_LOG(value.path << " = " << value.value);
    const std::string field = FieldOf(value.path, want);
    MC_CHECK(want.count(field), "there is no field " << field << " for " << value.path);
    MC_CHECK(bases[code][field] == value.value,
             "the value of " << value.path << " is " << value.value << ", the field is "
                             << bases[code][field]);
    const std::string changed = Changed(value);
    if (map_builder && value.path.compare(0, 23, "use_trajectory_builder_") == 0) {
      // Exactly one of them.
      changed_code +=
          "MAP_BUILDER.use_trajectory_builder_2d = false\n"
          "MAP_BUILDER.use_trajectory_builder_3d = true\n";
      want["use_trajectory_builder_2d"] = "false";
      want["use_trajectory_builder_3d"] = "true";
      continue;
    }
    if (value.type == "string" && value.value.compare(0, 16, "PROBABILITY_GRID") == 0) {
      // The inserter has to fit the grid.
      const std::string path = "trajectory_builder_2d.submaps.";
      const std::string type = path + "range_data_inserter.range_data_inserter_type";
      const std::string grid = path + "grid_options_2d.grid_type";
      changed_code += table + "." + type + " = \"TSDF_INSERTER_2D\"\n" + table + "." + grid +
                      " = \"TSDF\"\n";
      want[FieldOf(type, want)] = "TSDF_INSERTER_2D";
      want[FieldOf(grid, want)] = "TSDF";
      continue;
    }
    changed_code += table;
    // Parts which are not names.
    size_t begin = 0;
    while (begin != std::string::npos) {
      const size_t end = value.path.find('.', begin);
      changed_code +=
          "[\"" + value.path.substr(begin, end == std::string::npos ? end : end - begin) + "\"]";
      begin = end == std::string::npos ? end : end + 1;
    }
    changed_code += " = " + (value.type == "string" ? "\"" + changed + "\"" : changed) + "\n";
    want[field] = changed;
  }
  const Fields got = create(changed_code);
  MC_CHECK(got.size() == want.size(), got.size() << " instead of " << want.size() << " fields");
  for (const auto& field : want) {
    MC_CHECK(got.count(field.first), "no field " << field.first);
    MC_CHECK(got.at(field.first) == field.second,
             field.first << " is " << got.at(field.first) << " instead of " << field.second);
  }
}

// A dictionary which is checked for every key being used exactly once.
void Usage() {
  // Keys "a", "b", and "c" with keys "d" and "e"; "f" is a list of dictionaries.
  const std::string code =
      "return { a = 3, b = 'text', c = { d = true, e = 1.5 }, f = { { g = 1 }, { g = 2 } } }";
  int uses[7];
  const bool counted = mc::flip();
  for (int i = 0; i != 7; ++i) uses[i] = mc::choose(i < 5 ? 3 : 2);
  // Nested values can be reached only through what contains them.
  const int a = uses[0], b = uses[1], c = uses[2], d = uses[3], e = uses[4];
  const bool list = uses[5], elements = uses[6];
  bool good = a == 1 && b == 1 && c == 1 && d == 1 && e == 1 && list && elements;
  bool right = true;
  const mc::Outcome outcome = mc::attempt([&] {
    auto dictionary = counted ? absl::make_unique<LuaParameterDictionary>(code, Resolver())
                              : LuaParameterDictionary::NonReferenceCounted(code, Resolver());
    for (int i = 0; i != a; ++i) {
      // Either way is a use.
      right &= (i == 0 ? dictionary->GetNonNegativeInt("a") : dictionary->GetDouble("a")) == 3;
    }
    for (int i = 0; i != b; ++i) right &= dictionary->GetString("b") == "text";
    for (int i = 0; i != c; ++i) {
      const auto nested = dictionary->GetDictionary("c");
      for (int k = 0; k != d; ++k) right &= nested->GetBool("d");
      for (int k = 0; k != e; ++k) right &= nested->GetDouble("e") == 1.5;
    }
    if (list) {
      const auto nested = dictionary->GetDictionary("f");
      if (elements) {
        auto values = nested->GetArrayValuesAsDictionaries();
        right &= values.size() == 2;
        for (int i = 0; i != 2; ++i) right &= values[i]->GetInt("g") == i + 1;
      }
    }
    right &= dictionary->HasKey("a") && !dictionary->HasKey("d");
    dictionary.reset();
    if (!right) _exit(80);
  });
  // The elements of a list need not be used.
  good = a == 1 && b == 1 && c == 1 && d == 1 && e == 1 && list;
  const bool refused = counted && !good;
  MC_CHECK(outcome == (refused ? mc::Outcome::kRefused : mc::Outcome::kCompleted),
           "uses " << a << b << c << d << e << list << elements << ": outcome "
                   << static_cast<int>(outcome));
}

// Reading what is not there or of another type is refused.
void Types() {
  const std::vector<std::string> values = {"true", "7", "-7", "2.5", "'text'", "'12'", "{ 1 }", ""};
  const int value = mc::choose(values.size());
  const int getter = mc::choose(6);
  const std::string code = "return { " + (value == 7 ? "" : "k = " + values[value]) + " }";
  const mc::Outcome outcome = mc::attempt([&] {
    auto dictionary = LuaParameterDictionary::NonReferenceCounted(code, Resolver());
    bool right = true;
    switch (getter) {
      case 0:
        right = dictionary->GetBool("k");
        break;
      case 1:
        right = dictionary->GetInt("k") == (value == 1 ? 7 : value == 2 ? -7 : value == 5 ? 12 : 2);
        break;
      case 2:
        right = dictionary->GetNonNegativeInt("k") == (value == 1 ? 7 : value == 5 ? 12 : 2);
        break;
      case 3:
        right = dictionary->GetDouble("k") ==
                (value == 1 ? 7. : value == 2 ? -7. : value == 5 ? 12. : 2.5);
        break;
      case 4:
        right = dictionary->GetString("k") == (value == 1   ? "7"
                                               : value == 2 ? "-7"
                                               : value == 3 ? "2.5"
                                               : value == 4 ? "text"
                                                            : "12");
        break;
      case 5:
        right = dictionary->GetDictionary("k")->GetArrayValuesAsDoubles() == std::vector<double>{1.};
        break;
    }
    if (!right) _exit(80);
  });
  bool fits = false;
  switch (getter) {
    case 0:
      fits = value == 0;
      break;
    case 1:
    case 3:
      fits = value == 1 || value == 2 || value == 3 || value == 5;
      break;
    case 2:
      fits = value == 1 || value == 3 || value == 5;
      break;
    case 4:
      fits = value >= 1 && value <= 5;
      break;
    case 5:
      fits = value == 6;
      break;
  }
  MC_CHECK(outcome == (fits ? mc::Outcome::kCompleted : mc::Outcome::kRefused),
           "getter " << getter << " of " << code << ": outcome " << static_cast<int>(outcome));
}

// What is printed is the same dictionary.
struct Table {
  std::map<std::string, std::string> scalars;  // by key, as Lua
  std::map<std::string, Table> tables;
  std::vector<std::string> list;
};
std::string ToLua(const Table& table) {
  std::string result = "{ ";
  for (const std::string& s : table.list) result += s + ", ";
  for (const auto& s : table.scalars) result += s.first + " = " + s.second + ", ";
  for (const auto& t : table.tables) result += t.first + " = " + ToLua(t.second) + ", ";
  return result + "}";
}
Table ChooseTable(const int depth) {
  static const std::vector<std::string> scalars = {
      "true", "false", "3", "-2.25", "-math.huge", "'a \\'b\\' \\\\ \"c\"'", "'x\\ny'", "''"};
  Table table;
  for (const char* key : {"a", "b_2"}) {
    const int kind = mc::choose(depth > 0 ? 10 : 5);
    if (kind == 0) continue;
    if (kind == 9) {
      table.tables[key] = ChooseTable(depth - 1);
    } else {
      table.scalars[key] = scalars[kind - 1];
    }
  }
  const int n = mc::choose(3);
  for (int i = 0; i != n; ++i) table.list.push_back(scalars[2 + 3 * i]);
  return table;
}
void Compare(const Table& table, LuaParameterDictionary* const dictionary) {
  std::set<std::string> keys;
  for (const auto& s : table.scalars) {
    keys.insert(s.first);
    MC_CHECK(dictionary->HasKey(s.first), "no key " << s.first);
    if (s.second == "true" || s.second == "false") {
      MC_CHECK(dictionary->GetBool(s.first) == (s.second == "true"), s.first);
    } else if (s.second == "3") {
      MC_CHECK(dictionary->GetInt(s.first) == 3, s.first);
    } else if (s.second == "-2.25") {
      MC_CHECK(dictionary->GetDouble(s.first) == -2.25, s.first);
    } else if (s.second == "-math.huge") {
      MC_CHECK(std::isinf(dictionary->GetDouble(s.first)) && dictionary->GetDouble(s.first) < 0., s.first);
    } else {
      const std::string want =
          s.second == "''" ? "" : s.second == "'x\\ny'" ? "x\ny" : "a 'b' \\ \"c\"";
      MC_CHECK(dictionary->GetString(s.first) == want,
               s.first << " is " << dictionary->GetString(s.first));
    }
  }
  for (const auto& t : table.tables) {
    keys.insert(t.first);
    Compare(t.second, dictionary->GetDictionary(t.first).get());
  }
  const std::vector<std::string> got = dictionary->GetKeys();
  MC_CHECK(std::set<std::string>(got.begin(), got.end()) == keys && got.size() == keys.size(),
           "keys");
  const std::vector<std::string> list = dictionary->GetArrayValuesAsStrings();
  MC_CHECK(list.size() == table.list.size(), list.size() << " values of a list");
  for (size_t i = 0; i != list.size(); ++i) {
    MC_CHECK(i == 0 ? std::stod(list[i]) == 3. : list[i] == "a 'b' \\ \"c\"", "list: " << list[i]);
  }
}
void Printing() {
  const Table table = ChooseTable(1);
  const std::string code = "return " + ToLua(table);
  MC_LOG(code);
  auto dictionary = LuaParameterDictionary::NonReferenceCounted(code, Resolver());
  Compare(table, dictionary.get());
  const std::string printed = dictionary->ToString();
  MC_LOG(printed);
  auto copy = LuaParameterDictionary::NonReferenceCounted("return " + printed, Resolver());
  Compare(table, copy.get());
  MC_CHECK(copy->ToString() == printed, "printed differently: " << copy->ToString());
  // Printing uses nothing.
  Compare(table, dictionary.get());
}

// Files are found in the first directory which has them, and included once.
void Files() {
  const std::string root = "/tmp/vf_configuration." + std::to_string(getpid());
  const std::string directories[2] = {root + "/one", root + "/two"};
  mkdir(root.c_str(), 0700);
  for (const std::string& d : directories) mkdir(d.c_str(), 0700);
  const std::string names[2] = {"x.lua", "y.lua"};
  // Which directories have which file: 0 none, 1 first, 2 second, 3 both.
  const int where[2] = {mc::choose(4), mc::choose(4)};
  const bool nested = mc::flip();  // x includes y
  const int includes = mc::choose(5);
  const bool reversed = mc::flip();
  const bool condition = mc::flip();
  for (int f = 0; f != 2; ++f) {
    for (int d = 0; d != 2; ++d) {
      if (!((where[f] >> d) & 1)) continue;
      std::ofstream file(directories[d] + "/" + names[f]);
      if (f == 0 && nested) file << "include \"y.lua\"\n";
      file << (f == 0 ? "X" : "Y") << " = " << 10 * (f + 1) + d << "\n";
    }
  }
  // What the main file includes.
  static const std::vector<std::vector<int>> lists = {{}, {0}, {1}, {0, 1}, {1, 1}};
  std::string code;
  std::vector<int> order;
  for (const int f : lists[includes]) {
    code += "include \"" + names[f] + "\"\n";
    order.push_back(f);
    if (f == 0 && nested) order.push_back(1);
  }
  const bool reads = mc::flip();
  code += std::string("return { x = X or 0, y = Y or 0, c = choose(") +
          (condition ? "true" : "false") + ", 5, 6)" +
          (reads ? ", content = read(\"y.lua\")" : "") + " }";
  const int first = reversed ? 1 : 0;
  const auto find = [&](const int f) {
    for (const int d : {first, 1 - first}) {
      if ((where[f] >> d) & 1) return d;
    }
    return -1;
  };
  bool good = true;
  std::set<int> included;
  int want[2] = {0, 0};
  for (const int f : order) {
    if (find(f) < 0 || !included.insert(f).second) {
      good = false;
      break;
    }
    want[f] = 10 * (f + 1) + find(f);
  }
  if (reads && find(1) < 0) good = false;
  const mc::Outcome outcome = mc::attempt([&] {
    auto dictionary = LuaParameterDictionary::NonReferenceCounted(
        code, absl::make_unique<common::ConfigurationFileResolver>(
                  std::vector<std::string>{directories[first], directories[1 - first]}));
    bool right = dictionary->GetInt("x") == want[0] && dictionary->GetInt("y") == want[1] &&
                 dictionary->GetInt("c") == (condition ? 5 : 6);
    if (reads) {
      right &= dictionary->GetString("content") == "Y = " + std::to_string(20 + find(1)) + "\n";
    }
    if (!right) _exit(80);
  });
  for (const std::string& d : directories) {
    for (const std::string& name : names) std::remove((d + "/" + name).c_str());
    rmdir(d.c_str());
  }
  rmdir(root.c_str());
  MC_CHECK(outcome == (good ? mc::Outcome::kCompleted : mc::Outcome::kRefused),
           "outcome " << static_cast<int>(outcome) << " of " << code);
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique = "explicit enumeration of configurations";
  return mc::Main(
      argc, argv,
      {{"map_builder", [] { CheckOptions(true, true); }, 3, UINT64_MAX,
        "every pair of values of the default configuration changed"},
       {"trajectory_builder", [] { CheckOptions(false, true); }, 3, UINT64_MAX,
        "every pair of values of the default configuration changed"},
       {"usage", [] { Usage(); }, 3, UINT64_MAX, "all numbers of uses (0-2) of the values of a dictionary"},
       {"types", [] { Types(); }, 3, UINT64_MAX, "all ways to read 8 kinds of values"},
       {"printing", [] { Printing(); }, 3, UINT64_MAX, "all dictionaries of two keys and a list, nested"},
       {"files", [] { Files(); }, 3, UINT64_MAX, "all placements of two files in two directories"}},
      config);
}

#include "google/protobuf/message.h"
namespace google::protobuf {
std::ostream& operator<<(std::ostream& out, Message const& message) {
  return out << message.ShortDebugString();
}
}  // namespace google::protobuf

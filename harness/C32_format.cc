//@ time=100,400 parts=count:4
//# A saved state is only accepted if it starts with a header of a supported version, then the pose graph, then the options, with as many options as trajectories; a stream that lacks any of them or has them in another order is refused, not misread. All later messages are handed out unchanged and in order.
//b any version number; up to three leading messages, each of any of three kinds, with 0 to 2 trajectories and options
//s messages travel through a queue of serialised messages
#include "symx.h"
#include "cartographer/io/internal/mapping_state_serialization.h"
#include "cartographer/io/proto_stream_deserializer.h"
using namespace cartographer;
using mapping::proto::SerializedData;
struct Queue : public io::ProtoStreamReaderInterface {
  std::vector<std::string> items; size_t next = 0;
  void Add(const google::protobuf::Message& m) { std::string s; m.SerializeToString(&s); items.push_back(s); }
  bool ReadProto(google::protobuf::Message* m) override { if (next == items.size()) return false; return m->ParseFromString(items[next++]); }
  bool eof() const override { return next == items.size(); }
};
extern "C" void symx_main() {
  const int count = symx_choose("count", 4);
  Queue queue;
  int kind[3] = {-1, -1, -1}, size[3] = {};
  const int version = symx_i32("version");
  mapping::proto::SerializationHeader header; header.set_format_version(version);
  if (count) queue.Add(header);
  const int later = symx_irange("later", 0, 1000);
  for (int i = 1; i < count; ++i) {
    SerializedData d;
    kind[i] = symx_choose("kind", 3); size[i] = symx_choose("size", 3);
    if (kind[i] == 0) { d.mutable_pose_graph(); for (int j = 0; j < size[i]; ++j) d.mutable_pose_graph()->add_trajectory()->set_trajectory_id(j); }
    if (kind[i] == 1) { d.mutable_all_trajectory_builder_options(); for (int j = 0; j < size[i]; ++j) d.mutable_all_trajectory_builder_options()->add_options_with_sensor_ids(); }
    if (kind[i] == 2) { d.mutable_imu_data()->set_trajectory_id(later); }
    queue.Add(d);
  }
  if (count == 3) for (int i = 0; i < 2; ++i) { SerializedData d; d.mutable_odometry_data()->set_trajectory_id(later + i); queue.Add(d); }
  const bool supported = (version == 1) | (version == 2);
  const bool ok = count == 3 && kind[1] == 0 && kind[2] == 1 && size[1] == size[2];
  if (!ok) {
    symx_expect_crash_begin("an incomplete or disordered state is refused");
    io::ProtoStreamDeserializer d(&queue);
    symx_expect_crash_end("an incomplete or disordered state is refused");
    return;
  }
  if (!supported) {
    symx_expect_crash_begin("an unsupported version is refused");
    io::ProtoStreamDeserializer d(&queue);
    symx_expect_crash_end("an unsupported version is refused");
    return;
  }
  io::ProtoStreamDeserializer d(&queue);
  symx_assert(int(d.header().format_version()) == version, "the version is reported");
  symx_assert(d.pose_graph().trajectory_size() == size[1] && d.all_trajectory_builder_options().options_with_sensor_ids_size() == size[2], "pose graph and options are handed out");
  SerializedData s;
  for (int i = 0; i < 2; ++i) { symx_assert(d.ReadNextSerializedData(&s) && s.has_odometry_data() && s.odometry_data().trajectory_id() == later + i, "later messages come in order"); }
  symx_assert(!d.ReadNextSerializedData(&s), "then the end is reported");
  symx_reach("accepted");
}

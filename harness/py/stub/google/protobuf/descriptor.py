from google.protobuf.dyn import Descriptor, EnumDescriptor, EnumValueDescriptor, FieldDescriptor, FileDescriptor, OneofDescriptor  # noqa

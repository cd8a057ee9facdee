package ua

// Generated by tools/gen_c03.py from schema/Opc.Ua.Types.bsd: the fields of every structured type in schema order.

type vpField struct {
	name, kind string
	array      bool
}

type vpStruct struct {
	name   string
	id     uint32
	mk     func() any
	fields []vpField
}

var vpStructs = []vpStruct{
	{"KeyValuePair", 14846, func() any { return new(KeyValuePair) }, []vpField{{"Key", "QualifiedName", false}, {"Value", "Variant", false}}},
	{"AdditionalParametersType", 17537, func() any { return new(AdditionalParametersType) }, []vpField{{"Parameters", "struct KeyValuePair", true}}},
	{"EphemeralKeyType", 17549, func() any { return new(EphemeralKeyType) }, []vpField{{"PublicKey", "ByteString", false}, {"Signature", "ByteString", false}}},
	{"EndpointType", 15671, func() any { return new(EndpointType) }, []vpField{{"EndpointURL", "String", false}, {"SecurityMode", "enum32", false}, {"SecurityPolicyURI", "String", false}, {"TransportProfileURI", "String", false}}},
	{"RationalNumber", 18815, func() any { return new(RationalNumber) }, []vpField{{"Numerator", "Int32", false}, {"Denominator", "UInt32", false}}},
	{"Vector", 18816, func() any { return new(Vector) }, []vpField{}},
	{"ThreeDVector", 18817, func() any { return new(ThreeDVector) }, []vpField{{"X", "Double", false}, {"Y", "Double", false}, {"Z", "Double", false}}},
	{"CartesianCoordinates", 18818, func() any { return new(CartesianCoordinates) }, []vpField{}},
	{"ThreeDCartesianCoordinates", 18819, func() any { return new(ThreeDCartesianCoordinates) }, []vpField{{"X", "Double", false}, {"Y", "Double", false}, {"Z", "Double", false}}},
	{"Orientation", 18820, func() any { return new(Orientation) }, []vpField{}},
	{"ThreeDOrientation", 18821, func() any { return new(ThreeDOrientation) }, []vpField{{"A", "Double", false}, {"B", "Double", false}, {"C", "Double", false}}},
	{"Frame", 18822, func() any { return new(Frame) }, []vpField{}},
	{"ThreeDFrame", 18823, func() any { return new(ThreeDFrame) }, []vpField{{"CartesianCoordinates", "struct ThreeDCartesianCoordinates", false}, {"Orientation", "struct ThreeDOrientation", false}}},
	{"IdentityMappingRuleType", 15736, func() any { return new(IdentityMappingRuleType) }, []vpField{{"CriteriaType", "enum32", false}, {"Criteria", "String", false}}},
	{"CurrencyUnitType", 23507, func() any { return new(CurrencyUnitType) }, []vpField{{"NumericCode", "Int16", false}, {"Exponent", "SByte", false}, {"AlphabeticCode", "String", false}, {"Currency", "LocalizedText", false}}},
	{"TrustListDataType", 12680, func() any { return new(TrustListDataType) }, []vpField{{"SpecifiedLists", "UInt32", false}, {"TrustedCertificates", "ByteString", true}, {"TrustedCrls", "ByteString", true}, {"IssuerCertificates", "ByteString", true}, {"IssuerCrls", "ByteString", true}}},
	{"DecimalDataType", 17863, func() any { return new(DecimalDataType) }, []vpField{{"Scale", "Int16", false}, {"Value", "ByteString", false}}},
	{"DataTypeSchemaHeader", 15676, func() any { return new(DataTypeSchemaHeader) }, []vpField{{"Namespaces", "String", true}, {"StructureDataTypes", "struct StructureDescription", true}, {"EnumDataTypes", "struct EnumDescription", true}, {"SimpleDataTypes", "struct SimpleTypeDescription", true}}},
	{"DataTypeDescription", 125, func() any { return new(DataTypeDescription) }, []vpField{{"DataTypeID", "NodeId", false}, {"Name", "QualifiedName", false}}},
	{"StructureDescription", 126, func() any { return new(StructureDescription) }, []vpField{{"DataTypeID", "NodeId", false}, {"Name", "QualifiedName", false}, {"StructureDefinition", "struct StructureDefinition", false}}},
	{"EnumDescription", 127, func() any { return new(EnumDescription) }, []vpField{{"DataTypeID", "NodeId", false}, {"Name", "QualifiedName", false}, {"EnumDefinition", "struct EnumDefinition", false}, {"BuiltInType", "Byte", false}}},
	{"SimpleTypeDescription", 15421, func() any { return new(SimpleTypeDescription) }, []vpField{{"DataTypeID", "NodeId", false}, {"Name", "QualifiedName", false}, {"BaseDataType", "NodeId", false}, {"BuiltInType", "Byte", false}}},
	{"UABinaryFileDataType", 15422, func() any { return new(UABinaryFileDataType) }, []vpField{{"Namespaces", "String", true}, {"StructureDataTypes", "struct StructureDescription", true}, {"EnumDataTypes", "struct EnumDescription", true}, {"SimpleDataTypes", "struct SimpleTypeDescription", true}, {"SchemaLocation", "String", false}, {"FileHeader", "struct KeyValuePair", true}, {"Body", "Variant", false}}},
	{"DataSetMetaDataType", 124, func() any { return new(DataSetMetaDataType) }, []vpField{{"Namespaces", "String", true}, {"StructureDataTypes", "struct StructureDescription", true}, {"EnumDataTypes", "struct EnumDescription", true}, {"SimpleDataTypes", "struct SimpleTypeDescription", true}, {"Name", "String", false}, {"Description", "LocalizedText", false}, {"Fields", "struct FieldMetaData", true}, {"DataSetClassID", "Guid", false}, {"ConfigurationVersion", "struct ConfigurationVersionDataType", false}}},
	{"FieldMetaData", 14839, func() any { return new(FieldMetaData) }, []vpField{{"Name", "String", false}, {"Description", "LocalizedText", false}, {"FieldFlags", "enum16", false}, {"BuiltInType", "Byte", false}, {"DataType", "NodeId", false}, {"ValueRank", "Int32", false}, {"ArrayDimensions", "UInt32", true}, {"MaxStringLength", "UInt32", false}, {"DataSetFieldID", "Guid", false}, {"Properties", "struct KeyValuePair", true}}},
	{"ConfigurationVersionDataType", 14847, func() any { return new(ConfigurationVersionDataType) }, []vpField{{"MajorVersion", "UInt32", false}, {"MinorVersion", "UInt32", false}}},
	{"PublishedDataSetDataType", 15677, func() any { return new(PublishedDataSetDataType) }, []vpField{{"Name", "String", false}, {"DataSetFolder", "String", true}, {"DataSetMetaData", "struct DataSetMetaDataType", false}, {"ExtensionFields", "struct KeyValuePair", true}, {"DataSetSource", "ExtensionObject", false}}},
	{"PublishedDataSetSourceDataType", 15678, func() any { return new(PublishedDataSetSourceDataType) }, []vpField{}},
	{"PublishedVariableDataType", 14323, func() any { return new(PublishedVariableDataType) }, []vpField{{"PublishedVariable", "NodeId", false}, {"AttributeID", "UInt32", false}, {"SamplingIntervalHint", "Double", false}, {"DeadbandType", "UInt32", false}, {"DeadbandValue", "Double", false}, {"IndexRange", "String", false}, {"SubstituteValue", "Variant", false}, {"MetaDataProperties", "QualifiedName", true}}},
	{"PublishedDataItemsDataType", 15679, func() any { return new(PublishedDataItemsDataType) }, []vpField{{"PublishedData", "struct PublishedVariableDataType", true}}},
	{"PublishedEventsDataType", 15681, func() any { return new(PublishedEventsDataType) }, []vpField{{"EventNotifier", "NodeId", false}, {"SelectedFields", "struct SimpleAttributeOperand", true}, {"Filter", "struct ContentFilter", false}}},
	{"DataSetWriterDataType", 15682, func() any { return new(DataSetWriterDataType) }, []vpField{{"Name", "String", false}, {"Enabled", "Boolean", false}, {"DataSetWriterID", "UInt16", false}, {"DataSetFieldContentMask", "enum32", false}, {"KeyFrameCount", "UInt32", false}, {"DataSetName", "String", false}, {"DataSetWriterProperties", "struct KeyValuePair", true}, {"TransportSettings", "ExtensionObject", false}, {"MessageSettings", "ExtensionObject", false}}},
	{"DataSetWriterTransportDataType", 15683, func() any { return new(DataSetWriterTransportDataType) }, []vpField{}},
	{"DataSetWriterMessageDataType", 15688, func() any { return new(DataSetWriterMessageDataType) }, []vpField{}},
	{"PubSubGroupDataType", 15689, func() any { return new(PubSubGroupDataType) }, []vpField{{"Name", "String", false}, {"Enabled", "Boolean", false}, {"SecurityMode", "enum32", false}, {"SecurityGroupID", "String", false}, {"SecurityKeyServices", "struct EndpointDescription", true}, {"MaxNetworkMessageSize", "UInt32", false}, {"GroupProperties", "struct KeyValuePair", true}}},
	{"WriterGroupDataType", 21150, func() any { return new(WriterGroupDataType) }, []vpField{{"Name", "String", false}, {"Enabled", "Boolean", false}, {"SecurityMode", "enum32", false}, {"SecurityGroupID", "String", false}, {"SecurityKeyServices", "struct EndpointDescription", true}, {"MaxNetworkMessageSize", "UInt32", false}, {"GroupProperties", "struct KeyValuePair", true}, {"WriterGroupID", "UInt16", false}, {"PublishingInterval", "Double", false}, {"KeepAliveTime", "Double", false}, {"Priority", "Byte", false}, {"LocaleIDs", "String", true}, {"HeaderLayoutURI", "String", false}, {"TransportSettings", "ExtensionObject", false}, {"MessageSettings", "ExtensionObject", false}, {"DataSetWriters", "struct DataSetWriterDataType", true}}},
	{"WriterGroupTransportDataType", 15691, func() any { return new(WriterGroupTransportDataType) }, []vpField{}},
	{"WriterGroupMessageDataType", 15693, func() any { return new(WriterGroupMessageDataType) }, []vpField{}},
	{"PubSubConnectionDataType", 15694, func() any { return new(PubSubConnectionDataType) }, []vpField{{"Name", "String", false}, {"Enabled", "Boolean", false}, {"PublisherID", "Variant", false}, {"TransportProfileURI", "String", false}, {"Address", "ExtensionObject", false}, {"ConnectionProperties", "struct KeyValuePair", true}, {"TransportSettings", "ExtensionObject", false}, {"WriterGroups", "struct WriterGroupDataType", true}, {"ReaderGroups", "struct ReaderGroupDataType", true}}},
	{"ConnectionTransportDataType", 15695, func() any { return new(ConnectionTransportDataType) }, []vpField{}},
	{"NetworkAddressDataType", 21151, func() any { return new(NetworkAddressDataType) }, []vpField{{"NetworkInterface", "String", false}}},
	{"NetworkAddressURLDataType", 21152, func() any { return new(NetworkAddressURLDataType) }, []vpField{{"NetworkInterface", "String", false}, {"URL", "String", false}}},
	{"ReaderGroupDataType", 21153, func() any { return new(ReaderGroupDataType) }, []vpField{{"Name", "String", false}, {"Enabled", "Boolean", false}, {"SecurityMode", "enum32", false}, {"SecurityGroupID", "String", false}, {"SecurityKeyServices", "struct EndpointDescription", true}, {"MaxNetworkMessageSize", "UInt32", false}, {"GroupProperties", "struct KeyValuePair", true}, {"TransportSettings", "ExtensionObject", false}, {"MessageSettings", "ExtensionObject", false}, {"DataSetReaders", "struct DataSetReaderDataType", true}}},
	{"ReaderGroupTransportDataType", 15701, func() any { return new(ReaderGroupTransportDataType) }, []vpField{}},
	{"ReaderGroupMessageDataType", 15702, func() any { return new(ReaderGroupMessageDataType) }, []vpField{}},
	{"DataSetReaderDataType", 15703, func() any { return new(DataSetReaderDataType) }, []vpField{{"Name", "String", false}, {"Enabled", "Boolean", false}, {"PublisherID", "Variant", false}, {"WriterGroupID", "UInt16", false}, {"DataSetWriterID", "UInt16", false}, {"DataSetMetaData", "struct DataSetMetaDataType", false}, {"DataSetFieldContentMask", "enum32", false}, {"MessageReceiveTimeout", "Double", false}, {"KeyFrameCount", "UInt32", false}, {"HeaderLayoutURI", "String", false}, {"SecurityMode", "enum32", false}, {"SecurityGroupID", "String", false}, {"SecurityKeyServices", "struct EndpointDescription", true}, {"DataSetReaderProperties", "struct KeyValuePair", true}, {"TransportSettings", "ExtensionObject", false}, {"MessageSettings", "ExtensionObject", false}, {"SubscribedDataSet", "ExtensionObject", false}}},
	{"DataSetReaderTransportDataType", 15705, func() any { return new(DataSetReaderTransportDataType) }, []vpField{}},
	{"DataSetReaderMessageDataType", 15706, func() any { return new(DataSetReaderMessageDataType) }, []vpField{}},
	{"SubscribedDataSetDataType", 15707, func() any { return new(SubscribedDataSetDataType) }, []vpField{}},
	{"TargetVariablesDataType", 15712, func() any { return new(TargetVariablesDataType) }, []vpField{{"TargetVariables", "struct FieldTargetDataType", true}}},
	{"FieldTargetDataType", 14848, func() any { return new(FieldTargetDataType) }, []vpField{{"DataSetFieldID", "Guid", false}, {"ReceiverIndexRange", "String", false}, {"TargetNodeID", "NodeId", false}, {"AttributeID", "UInt32", false}, {"WriteIndexRange", "String", false}, {"OverrideValueHandling", "enum32", false}, {"OverrideValue", "Variant", false}}},
	{"SubscribedDataSetMirrorDataType", 15713, func() any { return new(SubscribedDataSetMirrorDataType) }, []vpField{{"ParentNodeName", "String", false}, {"RolePermissions", "struct RolePermissionType", true}}},
	{"PubSubConfigurationDataType", 21154, func() any { return new(PubSubConfigurationDataType) }, []vpField{{"PublishedDataSets", "struct PublishedDataSetDataType", true}, {"Connections", "struct PubSubConnectionDataType", true}, {"Enabled", "Boolean", false}}},
	{"UADPWriterGroupMessageDataType", 15715, func() any { return new(UADPWriterGroupMessageDataType) }, []vpField{{"GroupVersion", "UInt32", false}, {"DataSetOrdering", "enum32", false}, {"NetworkMessageContentMask", "enum32", false}, {"SamplingOffset", "Double", false}, {"PublishingOffset", "Double", true}}},
	{"UADPDataSetWriterMessageDataType", 15717, func() any { return new(UADPDataSetWriterMessageDataType) }, []vpField{{"DataSetMessageContentMask", "enum32", false}, {"ConfiguredSize", "UInt16", false}, {"NetworkMessageNumber", "UInt16", false}, {"DataSetOffset", "UInt16", false}}},
	{"UADPDataSetReaderMessageDataType", 15718, func() any { return new(UADPDataSetReaderMessageDataType) }, []vpField{{"GroupVersion", "UInt32", false}, {"NetworkMessageNumber", "UInt16", false}, {"DataSetOffset", "UInt16", false}, {"DataSetClassID", "Guid", false}, {"NetworkMessageContentMask", "enum32", false}, {"DataSetMessageContentMask", "enum32", false}, {"PublishingInterval", "Double", false}, {"ReceiveOffset", "Double", false}, {"ProcessingOffset", "Double", false}}},
	{"JSONWriterGroupMessageDataType", 15719, func() any { return new(JSONWriterGroupMessageDataType) }, []vpField{{"NetworkMessageContentMask", "enum32", false}}},
	{"JSONDataSetWriterMessageDataType", 15724, func() any { return new(JSONDataSetWriterMessageDataType) }, []vpField{{"DataSetMessageContentMask", "enum32", false}}},
	{"JSONDataSetReaderMessageDataType", 15725, func() any { return new(JSONDataSetReaderMessageDataType) }, []vpField{{"NetworkMessageContentMask", "enum32", false}, {"DataSetMessageContentMask", "enum32", false}}},
	{"DatagramConnectionTransportDataType", 17468, func() any { return new(DatagramConnectionTransportDataType) }, []vpField{{"DiscoveryAddress", "ExtensionObject", false}}},
	{"DatagramWriterGroupTransportDataType", 21155, func() any { return new(DatagramWriterGroupTransportDataType) }, []vpField{{"MessageRepeatCount", "Byte", false}, {"MessageRepeatDelay", "Double", false}}},
	{"BrokerConnectionTransportDataType", 15479, func() any { return new(BrokerConnectionTransportDataType) }, []vpField{{"ResourceURI", "String", false}, {"AuthenticationProfileURI", "String", false}}},
	{"BrokerWriterGroupTransportDataType", 15727, func() any { return new(BrokerWriterGroupTransportDataType) }, []vpField{{"QueueName", "String", false}, {"ResourceURI", "String", false}, {"AuthenticationProfileURI", "String", false}, {"RequestedDeliveryGuarantee", "enum32", false}}},
	{"BrokerDataSetWriterTransportDataType", 15729, func() any { return new(BrokerDataSetWriterTransportDataType) }, []vpField{{"QueueName", "String", false}, {"ResourceURI", "String", false}, {"AuthenticationProfileURI", "String", false}, {"RequestedDeliveryGuarantee", "enum32", false}, {"MetaDataQueueName", "String", false}, {"MetaDataUpdateTime", "Double", false}}},
	{"BrokerDataSetReaderTransportDataType", 15733, func() any { return new(BrokerDataSetReaderTransportDataType) }, []vpField{{"QueueName", "String", false}, {"ResourceURI", "String", false}, {"AuthenticationProfileURI", "String", false}, {"RequestedDeliveryGuarantee", "enum32", false}, {"MetaDataQueueName", "String", false}}},
	{"AliasNameDataType", 23499, func() any { return new(AliasNameDataType) }, []vpField{{"AliasName", "QualifiedName", false}, {"ReferencedNodes", "ExpandedNodeId", true}}},
	{"RolePermissionType", 128, func() any { return new(RolePermissionType) }, []vpField{{"RoleID", "NodeId", false}, {"Permissions", "enum32", false}}},
	{"StructureField", 14844, func() any { return new(StructureField) }, []vpField{{"Name", "String", false}, {"Description", "LocalizedText", false}, {"DataType", "NodeId", false}, {"ValueRank", "Int32", false}, {"ArrayDimensions", "UInt32", true}, {"MaxStringLength", "UInt32", false}, {"IsOptional", "Boolean", false}}},
	{"StructureDefinition", 122, func() any { return new(StructureDefinition) }, []vpField{{"DefaultEncodingID", "NodeId", false}, {"BaseDataType", "NodeId", false}, {"StructureType", "enum32", false}, {"Fields", "struct StructureField", true}}},
	{"EnumDefinition", 123, func() any { return new(EnumDefinition) }, []vpField{{"Fields", "struct EnumField", true}}},
	{"Argument", 298, func() any { return new(Argument) }, []vpField{{"Name", "String", false}, {"DataType", "NodeId", false}, {"ValueRank", "Int32", false}, {"ArrayDimensions", "UInt32", true}, {"Description", "LocalizedText", false}}},
	{"EnumValueType", 8251, func() any { return new(EnumValueType) }, []vpField{{"Value", "Int64", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}}},
	{"EnumField", 14845, func() any { return new(EnumField) }, []vpField{{"Value", "Int64", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"Name", "String", false}}},
	{"OptionSet", 12765, func() any { return new(OptionSet) }, []vpField{{"Value", "ByteString", false}, {"ValidBits", "ByteString", false}}},
	{"Union", 12766, func() any { return new(Union) }, []vpField{}},
	{"TimeZoneDataType", 8917, func() any { return new(TimeZoneDataType) }, []vpField{{"Offset", "Int16", false}, {"DaylightSavingInOffset", "Boolean", false}}},
	{"ApplicationDescription", 310, func() any { return new(ApplicationDescription) }, []vpField{{"ApplicationURI", "String", false}, {"ProductURI", "String", false}, {"ApplicationName", "LocalizedText", false}, {"ApplicationType", "enum32", false}, {"GatewayServerURI", "String", false}, {"DiscoveryProfileURI", "String", false}, {"DiscoveryURLs", "String", true}}},
	{"RequestHeader", 391, func() any { return new(RequestHeader) }, []vpField{{"AuthenticationToken", "NodeId", false}, {"Timestamp", "DateTime", false}, {"RequestHandle", "UInt32", false}, {"ReturnDiagnostics", "UInt32", false}, {"AuditEntryID", "String", false}, {"TimeoutHint", "UInt32", false}, {"AdditionalHeader", "ExtensionObject", false}}},
	{"ResponseHeader", 394, func() any { return new(ResponseHeader) }, []vpField{{"Timestamp", "DateTime", false}, {"RequestHandle", "UInt32", false}, {"ServiceResult", "StatusCode", false}, {"ServiceDiagnostics", "DiagnosticInfo", false}, {"StringTable", "String", true}, {"AdditionalHeader", "ExtensionObject", false}}},
	{"ServiceFault", 397, func() any { return new(ServiceFault) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}}},
	{"SessionlessInvokeRequestType", 15903, func() any { return new(SessionlessInvokeRequestType) }, []vpField{{"URIsVersion", "UInt32", true}, {"NamespaceURIs", "String", true}, {"ServerURIs", "String", true}, {"LocaleIDs", "String", true}, {"ServiceID", "UInt32", false}}},
	{"SessionlessInvokeResponseType", 21001, func() any { return new(SessionlessInvokeResponseType) }, []vpField{{"NamespaceURIs", "String", true}, {"ServerURIs", "String", true}, {"ServiceID", "UInt32", false}}},
	{"FindServersRequest", 422, func() any { return new(FindServersRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"EndpointURL", "String", false}, {"LocaleIDs", "String", true}, {"ServerURIs", "String", true}}},
	{"FindServersResponse", 425, func() any { return new(FindServersResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Servers", "struct ApplicationDescription", true}}},
	{"ServerOnNetwork", 12207, func() any { return new(ServerOnNetwork) }, []vpField{{"RecordID", "UInt32", false}, {"ServerName", "String", false}, {"DiscoveryURL", "String", false}, {"ServerCapabilities", "String", true}}},
	{"FindServersOnNetworkRequest", 12208, func() any { return new(FindServersOnNetworkRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"StartingRecordID", "UInt32", false}, {"MaxRecordsToReturn", "UInt32", false}, {"ServerCapabilityFilter", "String", true}}},
	{"FindServersOnNetworkResponse", 12209, func() any { return new(FindServersOnNetworkResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"LastCounterResetTime", "DateTime", false}, {"Servers", "struct ServerOnNetwork", true}}},
	{"UserTokenPolicy", 306, func() any { return new(UserTokenPolicy) }, []vpField{{"PolicyID", "String", false}, {"TokenType", "enum32", false}, {"IssuedTokenType", "String", false}, {"IssuerEndpointURL", "String", false}, {"SecurityPolicyURI", "String", false}}},
	{"EndpointDescription", 314, func() any { return new(EndpointDescription) }, []vpField{{"EndpointURL", "String", false}, {"Server", "struct ApplicationDescription", false}, {"ServerCertificate", "ByteString", false}, {"SecurityMode", "enum32", false}, {"SecurityPolicyURI", "String", false}, {"UserIdentityTokens", "struct UserTokenPolicy", true}, {"TransportProfileURI", "String", false}, {"SecurityLevel", "Byte", false}}},
	{"GetEndpointsRequest", 428, func() any { return new(GetEndpointsRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"EndpointURL", "String", false}, {"LocaleIDs", "String", true}, {"ProfileURIs", "String", true}}},
	{"GetEndpointsResponse", 431, func() any { return new(GetEndpointsResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Endpoints", "struct EndpointDescription", true}}},
	{"RegisteredServer", 434, func() any { return new(RegisteredServer) }, []vpField{{"ServerURI", "String", false}, {"ProductURI", "String", false}, {"ServerNames", "LocalizedText", true}, {"ServerType", "enum32", false}, {"GatewayServerURI", "String", false}, {"DiscoveryURLs", "String", true}, {"SemaphoreFilePath", "String", false}, {"IsOnline", "Boolean", false}}},
	{"RegisterServerRequest", 437, func() any { return new(RegisterServerRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"Server", "struct RegisteredServer", false}}},
	{"RegisterServerResponse", 440, func() any { return new(RegisterServerResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}}},
	{"DiscoveryConfiguration", 12900, func() any { return new(DiscoveryConfiguration) }, []vpField{}},
	{"MdnsDiscoveryConfiguration", 12901, func() any { return new(MdnsDiscoveryConfiguration) }, []vpField{{"MdnsServerName", "String", false}, {"ServerCapabilities", "String", true}}},
	{"RegisterServer2Request", 12211, func() any { return new(RegisterServer2Request) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"Server", "struct RegisteredServer", false}, {"DiscoveryConfiguration", "ExtensionObject", true}}},
	{"RegisterServer2Response", 12212, func() any { return new(RegisterServer2Response) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"ConfigurationResults", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"ChannelSecurityToken", 443, func() any { return new(ChannelSecurityToken) }, []vpField{{"ChannelID", "UInt32", false}, {"TokenID", "UInt32", false}, {"CreatedAt", "DateTime", false}, {"RevisedLifetime", "UInt32", false}}},
	{"OpenSecureChannelRequest", 446, func() any { return new(OpenSecureChannelRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"ClientProtocolVersion", "UInt32", false}, {"RequestType", "enum32", false}, {"SecurityMode", "enum32", false}, {"ClientNonce", "ByteString", false}, {"RequestedLifetime", "UInt32", false}}},
	{"OpenSecureChannelResponse", 449, func() any { return new(OpenSecureChannelResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"ServerProtocolVersion", "UInt32", false}, {"SecurityToken", "struct ChannelSecurityToken", false}, {"ServerNonce", "ByteString", false}}},
	{"CloseSecureChannelRequest", 452, func() any { return new(CloseSecureChannelRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}}},
	{"CloseSecureChannelResponse", 455, func() any { return new(CloseSecureChannelResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}}},
	{"SignedSoftwareCertificate", 346, func() any { return new(SignedSoftwareCertificate) }, []vpField{{"CertificateData", "ByteString", false}, {"Signature", "ByteString", false}}},
	{"SignatureData", 458, func() any { return new(SignatureData) }, []vpField{{"Algorithm", "String", false}, {"Signature", "ByteString", false}}},
	{"CreateSessionRequest", 461, func() any { return new(CreateSessionRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"ClientDescription", "struct ApplicationDescription", false}, {"ServerURI", "String", false}, {"EndpointURL", "String", false}, {"SessionName", "String", false}, {"ClientNonce", "ByteString", false}, {"ClientCertificate", "ByteString", false}, {"RequestedSessionTimeout", "Double", false}, {"MaxResponseMessageSize", "UInt32", false}}},
	{"CreateSessionResponse", 464, func() any { return new(CreateSessionResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"SessionID", "NodeId", false}, {"AuthenticationToken", "NodeId", false}, {"RevisedSessionTimeout", "Double", false}, {"ServerNonce", "ByteString", false}, {"ServerCertificate", "ByteString", false}, {"ServerEndpoints", "struct EndpointDescription", true}, {"ServerSoftwareCertificates", "struct SignedSoftwareCertificate", true}, {"ServerSignature", "struct SignatureData", false}, {"MaxRequestMessageSize", "UInt32", false}}},
	{"UserIdentityToken", 318, func() any { return new(UserIdentityToken) }, []vpField{{"PolicyID", "String", false}}},
	{"AnonymousIdentityToken", 321, func() any { return new(AnonymousIdentityToken) }, []vpField{{"PolicyID", "String", false}}},
	{"UserNameIdentityToken", 324, func() any { return new(UserNameIdentityToken) }, []vpField{{"PolicyID", "String", false}, {"UserName", "String", false}, {"Password", "ByteString", false}, {"EncryptionAlgorithm", "String", false}}},
	{"X509IdentityToken", 327, func() any { return new(X509IdentityToken) }, []vpField{{"PolicyID", "String", false}, {"CertificateData", "ByteString", false}}},
	{"IssuedIdentityToken", 940, func() any { return new(IssuedIdentityToken) }, []vpField{{"PolicyID", "String", false}, {"TokenData", "ByteString", false}, {"EncryptionAlgorithm", "String", false}}},
	{"ActivateSessionRequest", 467, func() any { return new(ActivateSessionRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"ClientSignature", "struct SignatureData", false}, {"ClientSoftwareCertificates", "struct SignedSoftwareCertificate", true}, {"LocaleIDs", "String", true}, {"UserIdentityToken", "ExtensionObject", false}, {"UserTokenSignature", "struct SignatureData", false}}},
	{"ActivateSessionResponse", 470, func() any { return new(ActivateSessionResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"ServerNonce", "ByteString", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"CloseSessionRequest", 473, func() any { return new(CloseSessionRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"DeleteSubscriptions", "Boolean", false}}},
	{"CloseSessionResponse", 476, func() any { return new(CloseSessionResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}}},
	{"CancelRequest", 479, func() any { return new(CancelRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"RequestHandle", "UInt32", false}}},
	{"CancelResponse", 482, func() any { return new(CancelResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"CancelCount", "UInt32", false}}},
	{"NodeAttributes", 351, func() any { return new(NodeAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}}},
	{"ObjectAttributes", 354, func() any { return new(ObjectAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}, {"EventNotifier", "Byte", false}}},
	{"VariableAttributes", 357, func() any { return new(VariableAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}, {"Value", "Variant", false}, {"DataType", "NodeId", false}, {"ValueRank", "Int32", false}, {"ArrayDimensions", "UInt32", true}, {"AccessLevel", "Byte", false}, {"UserAccessLevel", "Byte", false}, {"MinimumSamplingInterval", "Double", false}, {"Historizing", "Boolean", false}}},
	{"MethodAttributes", 360, func() any { return new(MethodAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}, {"Executable", "Boolean", false}, {"UserExecutable", "Boolean", false}}},
	{"ObjectTypeAttributes", 363, func() any { return new(ObjectTypeAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}, {"IsAbstract", "Boolean", false}}},
	{"VariableTypeAttributes", 366, func() any { return new(VariableTypeAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}, {"Value", "Variant", false}, {"DataType", "NodeId", false}, {"ValueRank", "Int32", false}, {"ArrayDimensions", "UInt32", true}, {"IsAbstract", "Boolean", false}}},
	{"ReferenceTypeAttributes", 369, func() any { return new(ReferenceTypeAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}, {"IsAbstract", "Boolean", false}, {"Symmetric", "Boolean", false}, {"InverseName", "LocalizedText", false}}},
	{"DataTypeAttributes", 372, func() any { return new(DataTypeAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}, {"IsAbstract", "Boolean", false}}},
	{"ViewAttributes", 375, func() any { return new(ViewAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}, {"ContainsNoLoops", "Boolean", false}, {"EventNotifier", "Byte", false}}},
	{"GenericAttributeValue", 17610, func() any { return new(GenericAttributeValue) }, []vpField{{"AttributeID", "UInt32", false}, {"Value", "Variant", false}}},
	{"GenericAttributes", 17611, func() any { return new(GenericAttributes) }, []vpField{{"SpecifiedAttributes", "UInt32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}, {"WriteMask", "UInt32", false}, {"UserWriteMask", "UInt32", false}, {"AttributeValues", "struct GenericAttributeValue", true}}},
	{"AddNodesItem", 378, func() any { return new(AddNodesItem) }, []vpField{{"ParentNodeID", "ExpandedNodeId", false}, {"ReferenceTypeID", "NodeId", false}, {"RequestedNewNodeID", "ExpandedNodeId", false}, {"BrowseName", "QualifiedName", false}, {"NodeClass", "enum32", false}, {"NodeAttributes", "ExtensionObject", false}, {"TypeDefinition", "ExpandedNodeId", false}}},
	{"AddNodesResult", 485, func() any { return new(AddNodesResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"AddedNodeID", "NodeId", false}}},
	{"AddNodesRequest", 488, func() any { return new(AddNodesRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"NodesToAdd", "struct AddNodesItem", true}}},
	{"AddNodesResponse", 491, func() any { return new(AddNodesResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct AddNodesResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"AddReferencesItem", 381, func() any { return new(AddReferencesItem) }, []vpField{{"SourceNodeID", "NodeId", false}, {"ReferenceTypeID", "NodeId", false}, {"IsForward", "Boolean", false}, {"TargetServerURI", "String", false}, {"TargetNodeID", "ExpandedNodeId", false}, {"TargetNodeClass", "enum32", false}}},
	{"AddReferencesRequest", 494, func() any { return new(AddReferencesRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"ReferencesToAdd", "struct AddReferencesItem", true}}},
	{"AddReferencesResponse", 497, func() any { return new(AddReferencesResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"DeleteNodesItem", 384, func() any { return new(DeleteNodesItem) }, []vpField{{"NodeID", "NodeId", false}, {"DeleteTargetReferences", "Boolean", false}}},
	{"DeleteNodesRequest", 500, func() any { return new(DeleteNodesRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"NodesToDelete", "struct DeleteNodesItem", true}}},
	{"DeleteNodesResponse", 503, func() any { return new(DeleteNodesResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"DeleteReferencesItem", 387, func() any { return new(DeleteReferencesItem) }, []vpField{{"SourceNodeID", "NodeId", false}, {"ReferenceTypeID", "NodeId", false}, {"IsForward", "Boolean", false}, {"TargetNodeID", "ExpandedNodeId", false}, {"DeleteBidirectional", "Boolean", false}}},
	{"DeleteReferencesRequest", 506, func() any { return new(DeleteReferencesRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"ReferencesToDelete", "struct DeleteReferencesItem", true}}},
	{"DeleteReferencesResponse", 509, func() any { return new(DeleteReferencesResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"ViewDescription", 513, func() any { return new(ViewDescription) }, []vpField{{"ViewID", "NodeId", false}, {"Timestamp", "DateTime", false}, {"ViewVersion", "UInt32", false}}},
	{"BrowseDescription", 516, func() any { return new(BrowseDescription) }, []vpField{{"NodeID", "NodeId", false}, {"BrowseDirection", "enum32", false}, {"ReferenceTypeID", "NodeId", false}, {"IncludeSubtypes", "Boolean", false}, {"NodeClassMask", "UInt32", false}, {"ResultMask", "UInt32", false}}},
	{"ReferenceDescription", 520, func() any { return new(ReferenceDescription) }, []vpField{{"ReferenceTypeID", "NodeId", false}, {"IsForward", "Boolean", false}, {"NodeID", "ExpandedNodeId", false}, {"BrowseName", "QualifiedName", false}, {"DisplayName", "LocalizedText", false}, {"NodeClass", "enum32", false}, {"TypeDefinition", "ExpandedNodeId", false}}},
	{"BrowseResult", 524, func() any { return new(BrowseResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"ContinuationPoint", "ByteString", false}, {"References", "struct ReferenceDescription", true}}},
	{"BrowseRequest", 527, func() any { return new(BrowseRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"View", "struct ViewDescription", false}, {"RequestedMaxReferencesPerNode", "UInt32", false}, {"NodesToBrowse", "struct BrowseDescription", true}}},
	{"BrowseResponse", 530, func() any { return new(BrowseResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct BrowseResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"BrowseNextRequest", 533, func() any { return new(BrowseNextRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"ReleaseContinuationPoints", "Boolean", false}, {"ContinuationPoints", "ByteString", true}}},
	{"BrowseNextResponse", 536, func() any { return new(BrowseNextResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct BrowseResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"RelativePathElement", 539, func() any { return new(RelativePathElement) }, []vpField{{"ReferenceTypeID", "NodeId", false}, {"IsInverse", "Boolean", false}, {"IncludeSubtypes", "Boolean", false}, {"TargetName", "QualifiedName", false}}},
	{"RelativePath", 542, func() any { return new(RelativePath) }, []vpField{{"Elements", "struct RelativePathElement", true}}},
	{"BrowsePath", 545, func() any { return new(BrowsePath) }, []vpField{{"StartingNode", "NodeId", false}, {"RelativePath", "struct RelativePath", false}}},
	{"BrowsePathTarget", 548, func() any { return new(BrowsePathTarget) }, []vpField{{"TargetID", "ExpandedNodeId", false}, {"RemainingPathIndex", "UInt32", false}}},
	{"BrowsePathResult", 551, func() any { return new(BrowsePathResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"Targets", "struct BrowsePathTarget", true}}},
	{"TranslateBrowsePathsToNodeIDsRequest", 554, func() any { return new(TranslateBrowsePathsToNodeIDsRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"BrowsePaths", "struct BrowsePath", true}}},
	{"TranslateBrowsePathsToNodeIDsResponse", 557, func() any { return new(TranslateBrowsePathsToNodeIDsResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct BrowsePathResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"RegisterNodesRequest", 560, func() any { return new(RegisterNodesRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"NodesToRegister", "NodeId", true}}},
	{"RegisterNodesResponse", 563, func() any { return new(RegisterNodesResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"RegisteredNodeIDs", "NodeId", true}}},
	{"UnregisterNodesRequest", 566, func() any { return new(UnregisterNodesRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"NodesToUnregister", "NodeId", true}}},
	{"UnregisterNodesResponse", 569, func() any { return new(UnregisterNodesResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}}},
	{"EndpointConfiguration", 333, func() any { return new(EndpointConfiguration) }, []vpField{{"OperationTimeout", "Int32", false}, {"UseBinaryEncoding", "Boolean", false}, {"MaxStringLength", "Int32", false}, {"MaxByteStringLength", "Int32", false}, {"MaxArrayLength", "Int32", false}, {"MaxMessageSize", "Int32", false}, {"MaxBufferSize", "Int32", false}, {"ChannelLifetime", "Int32", false}, {"SecurityTokenLifetime", "Int32", false}}},
	{"QueryDataDescription", 572, func() any { return new(QueryDataDescription) }, []vpField{{"RelativePath", "struct RelativePath", false}, {"AttributeID", "UInt32", false}, {"IndexRange", "String", false}}},
	{"NodeTypeDescription", 575, func() any { return new(NodeTypeDescription) }, []vpField{{"TypeDefinitionNode", "ExpandedNodeId", false}, {"IncludeSubTypes", "Boolean", false}, {"DataToReturn", "struct QueryDataDescription", true}}},
	{"QueryDataSet", 579, func() any { return new(QueryDataSet) }, []vpField{{"NodeID", "ExpandedNodeId", false}, {"TypeDefinitionNode", "ExpandedNodeId", false}, {"Values", "Variant", true}}},
	{"NodeReference", 582, func() any { return new(NodeReference) }, []vpField{{"NodeID", "NodeId", false}, {"ReferenceTypeID", "NodeId", false}, {"IsForward", "Boolean", false}, {"ReferencedNodeIDs", "NodeId", true}}},
	{"ContentFilterElement", 585, func() any { return new(ContentFilterElement) }, []vpField{{"FilterOperator", "enum32", false}, {"FilterOperands", "ExtensionObject", true}}},
	{"ContentFilter", 588, func() any { return new(ContentFilter) }, []vpField{{"Elements", "struct ContentFilterElement", true}}},
	{"FilterOperand", 591, func() any { return new(FilterOperand) }, []vpField{}},
	{"ElementOperand", 594, func() any { return new(ElementOperand) }, []vpField{{"Index", "UInt32", false}}},
	{"LiteralOperand", 597, func() any { return new(LiteralOperand) }, []vpField{{"Value", "Variant", false}}},
	{"AttributeOperand", 600, func() any { return new(AttributeOperand) }, []vpField{{"NodeID", "NodeId", false}, {"Alias", "String", false}, {"BrowsePath", "struct RelativePath", false}, {"AttributeID", "UInt32", false}, {"IndexRange", "String", false}}},
	{"SimpleAttributeOperand", 603, func() any { return new(SimpleAttributeOperand) }, []vpField{{"TypeDefinitionID", "NodeId", false}, {"BrowsePath", "QualifiedName", true}, {"AttributeID", "UInt32", false}, {"IndexRange", "String", false}}},
	{"ContentFilterElementResult", 606, func() any { return new(ContentFilterElementResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"OperandStatusCodes", "StatusCode", true}, {"OperandDiagnosticInfos", "DiagnosticInfo", true}}},
	{"ContentFilterResult", 609, func() any { return new(ContentFilterResult) }, []vpField{{"ElementResults", "struct ContentFilterElementResult", true}, {"ElementDiagnosticInfos", "DiagnosticInfo", true}}},
	{"ParsingResult", 612, func() any { return new(ParsingResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"DataStatusCodes", "StatusCode", true}, {"DataDiagnosticInfos", "DiagnosticInfo", true}}},
	{"QueryFirstRequest", 615, func() any { return new(QueryFirstRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"View", "struct ViewDescription", false}, {"NodeTypes", "struct NodeTypeDescription", true}, {"Filter", "struct ContentFilter", false}, {"MaxDataSetsToReturn", "UInt32", false}, {"MaxReferencesToReturn", "UInt32", false}}},
	{"QueryFirstResponse", 618, func() any { return new(QueryFirstResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"QueryDataSets", "struct QueryDataSet", true}, {"ContinuationPoint", "ByteString", false}, {"ParsingResults", "struct ParsingResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}, {"FilterResult", "struct ContentFilterResult", false}}},
	{"QueryNextRequest", 621, func() any { return new(QueryNextRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"ReleaseContinuationPoint", "Boolean", false}, {"ContinuationPoint", "ByteString", false}}},
	{"QueryNextResponse", 624, func() any { return new(QueryNextResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"QueryDataSets", "struct QueryDataSet", true}, {"RevisedContinuationPoint", "ByteString", false}}},
	{"ReadValueID", 628, func() any { return new(ReadValueID) }, []vpField{{"NodeID", "NodeId", false}, {"AttributeID", "UInt32", false}, {"IndexRange", "String", false}, {"DataEncoding", "QualifiedName", false}}},
	{"ReadRequest", 631, func() any { return new(ReadRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"MaxAge", "Double", false}, {"TimestampsToReturn", "enum32", false}, {"NodesToRead", "struct ReadValueID", true}}},
	{"ReadResponse", 634, func() any { return new(ReadResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "DataValue", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"HistoryReadValueID", 637, func() any { return new(HistoryReadValueID) }, []vpField{{"NodeID", "NodeId", false}, {"IndexRange", "String", false}, {"DataEncoding", "QualifiedName", false}, {"ContinuationPoint", "ByteString", false}}},
	{"HistoryReadResult", 640, func() any { return new(HistoryReadResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"ContinuationPoint", "ByteString", false}, {"HistoryData", "ExtensionObject", false}}},
	{"HistoryReadDetails", 643, func() any { return new(HistoryReadDetails) }, []vpField{}},
	{"ReadEventDetails", 646, func() any { return new(ReadEventDetails) }, []vpField{{"NumValuesPerNode", "UInt32", false}, {"StartTime", "DateTime", false}, {"EndTime", "DateTime", false}, {"Filter", "struct EventFilter", false}}},
	{"ReadRawModifiedDetails", 649, func() any { return new(ReadRawModifiedDetails) }, []vpField{{"IsReadModified", "Boolean", false}, {"StartTime", "DateTime", false}, {"EndTime", "DateTime", false}, {"NumValuesPerNode", "UInt32", false}, {"ReturnBounds", "Boolean", false}}},
	{"ReadProcessedDetails", 652, func() any { return new(ReadProcessedDetails) }, []vpField{{"StartTime", "DateTime", false}, {"EndTime", "DateTime", false}, {"ProcessingInterval", "Double", false}, {"AggregateType", "NodeId", true}, {"AggregateConfiguration", "struct AggregateConfiguration", false}}},
	{"ReadAtTimeDetails", 655, func() any { return new(ReadAtTimeDetails) }, []vpField{{"ReqTimes", "DateTime", true}, {"UseSimpleBounds", "Boolean", false}}},
	{"ReadAnnotationDataDetails", 23500, func() any { return new(ReadAnnotationDataDetails) }, []vpField{{"ReqTimes", "DateTime", true}}},
	{"HistoryData", 658, func() any { return new(HistoryData) }, []vpField{{"DataValues", "DataValue", true}}},
	{"ModificationInfo", 11226, func() any { return new(ModificationInfo) }, []vpField{{"ModificationTime", "DateTime", false}, {"UpdateType", "enum32", false}, {"UserName", "String", false}}},
	{"HistoryModifiedData", 11227, func() any { return new(HistoryModifiedData) }, []vpField{{"DataValues", "DataValue", true}, {"ModificationInfos", "struct ModificationInfo", true}}},
	{"HistoryEvent", 661, func() any { return new(HistoryEvent) }, []vpField{{"Events", "struct HistoryEventFieldList", true}}},
	{"HistoryReadRequest", 664, func() any { return new(HistoryReadRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"HistoryReadDetails", "ExtensionObject", false}, {"TimestampsToReturn", "enum32", false}, {"ReleaseContinuationPoints", "Boolean", false}, {"NodesToRead", "struct HistoryReadValueID", true}}},
	{"HistoryReadResponse", 667, func() any { return new(HistoryReadResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct HistoryReadResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"WriteValue", 670, func() any { return new(WriteValue) }, []vpField{{"NodeID", "NodeId", false}, {"AttributeID", "UInt32", false}, {"IndexRange", "String", false}, {"Value", "DataValue", false}}},
	{"WriteRequest", 673, func() any { return new(WriteRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"NodesToWrite", "struct WriteValue", true}}},
	{"WriteResponse", 676, func() any { return new(WriteResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"HistoryUpdateDetails", 679, func() any { return new(HistoryUpdateDetails) }, []vpField{{"NodeID", "NodeId", false}}},
	{"UpdateDataDetails", 682, func() any { return new(UpdateDataDetails) }, []vpField{{"NodeID", "NodeId", false}, {"PerformInsertReplace", "enum32", false}, {"UpdateValues", "DataValue", true}}},
	{"UpdateStructureDataDetails", 11300, func() any { return new(UpdateStructureDataDetails) }, []vpField{{"NodeID", "NodeId", false}, {"PerformInsertReplace", "enum32", false}, {"UpdateValues", "DataValue", true}}},
	{"UpdateEventDetails", 685, func() any { return new(UpdateEventDetails) }, []vpField{{"NodeID", "NodeId", false}, {"PerformInsertReplace", "enum32", false}, {"Filter", "struct EventFilter", false}, {"EventData", "struct HistoryEventFieldList", true}}},
	{"DeleteRawModifiedDetails", 688, func() any { return new(DeleteRawModifiedDetails) }, []vpField{{"NodeID", "NodeId", false}, {"IsDeleteModified", "Boolean", false}, {"StartTime", "DateTime", false}, {"EndTime", "DateTime", false}}},
	{"DeleteAtTimeDetails", 691, func() any { return new(DeleteAtTimeDetails) }, []vpField{{"NodeID", "NodeId", false}, {"ReqTimes", "DateTime", true}}},
	{"DeleteEventDetails", 694, func() any { return new(DeleteEventDetails) }, []vpField{{"NodeID", "NodeId", false}, {"EventIDs", "ByteString", true}}},
	{"HistoryUpdateResult", 697, func() any { return new(HistoryUpdateResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"OperationResults", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"HistoryUpdateRequest", 700, func() any { return new(HistoryUpdateRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"HistoryUpdateDetails", "ExtensionObject", true}}},
	{"HistoryUpdateResponse", 703, func() any { return new(HistoryUpdateResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct HistoryUpdateResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"CallMethodRequest", 706, func() any { return new(CallMethodRequest) }, []vpField{{"ObjectID", "NodeId", false}, {"MethodID", "NodeId", false}, {"InputArguments", "Variant", true}}},
	{"CallMethodResult", 709, func() any { return new(CallMethodResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"InputArgumentResults", "StatusCode", true}, {"InputArgumentDiagnosticInfos", "DiagnosticInfo", true}, {"OutputArguments", "Variant", true}}},
	{"CallRequest", 712, func() any { return new(CallRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"MethodsToCall", "struct CallMethodRequest", true}}},
	{"CallResponse", 715, func() any { return new(CallResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct CallMethodResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"MonitoringFilter", 721, func() any { return new(MonitoringFilter) }, []vpField{}},
	{"DataChangeFilter", 724, func() any { return new(DataChangeFilter) }, []vpField{{"Trigger", "enum32", false}, {"DeadbandType", "UInt32", false}, {"DeadbandValue", "Double", false}}},
	{"EventFilter", 727, func() any { return new(EventFilter) }, []vpField{{"SelectClauses", "struct SimpleAttributeOperand", true}, {"WhereClause", "struct ContentFilter", false}}},
	{"AggregateConfiguration", 950, func() any { return new(AggregateConfiguration) }, []vpField{{"UseServerCapabilitiesDefaults", "Boolean", false}, {"TreatUncertainAsBad", "Boolean", false}, {"PercentDataBad", "Byte", false}, {"PercentDataGood", "Byte", false}, {"UseSlopedExtrapolation", "Boolean", false}}},
	{"AggregateFilter", 730, func() any { return new(AggregateFilter) }, []vpField{{"StartTime", "DateTime", false}, {"AggregateType", "NodeId", false}, {"ProcessingInterval", "Double", false}, {"AggregateConfiguration", "struct AggregateConfiguration", false}}},
	{"MonitoringFilterResult", 733, func() any { return new(MonitoringFilterResult) }, []vpField{}},
	{"EventFilterResult", 736, func() any { return new(EventFilterResult) }, []vpField{{"SelectClauseResults", "StatusCode", true}, {"SelectClauseDiagnosticInfos", "DiagnosticInfo", true}, {"WhereClauseResult", "struct ContentFilterResult", false}}},
	{"AggregateFilterResult", 739, func() any { return new(AggregateFilterResult) }, []vpField{{"RevisedStartTime", "DateTime", false}, {"RevisedProcessingInterval", "Double", false}, {"RevisedAggregateConfiguration", "struct AggregateConfiguration", false}}},
	{"MonitoringParameters", 742, func() any { return new(MonitoringParameters) }, []vpField{{"ClientHandle", "UInt32", false}, {"SamplingInterval", "Double", false}, {"Filter", "ExtensionObject", false}, {"QueueSize", "UInt32", false}, {"DiscardOldest", "Boolean", false}}},
	{"MonitoredItemCreateRequest", 745, func() any { return new(MonitoredItemCreateRequest) }, []vpField{{"ItemToMonitor", "struct ReadValueID", false}, {"MonitoringMode", "enum32", false}, {"RequestedParameters", "struct MonitoringParameters", false}}},
	{"MonitoredItemCreateResult", 748, func() any { return new(MonitoredItemCreateResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"MonitoredItemID", "UInt32", false}, {"RevisedSamplingInterval", "Double", false}, {"RevisedQueueSize", "UInt32", false}, {"FilterResult", "ExtensionObject", false}}},
	{"CreateMonitoredItemsRequest", 751, func() any { return new(CreateMonitoredItemsRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionID", "UInt32", false}, {"TimestampsToReturn", "enum32", false}, {"ItemsToCreate", "struct MonitoredItemCreateRequest", true}}},
	{"CreateMonitoredItemsResponse", 754, func() any { return new(CreateMonitoredItemsResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct MonitoredItemCreateResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"MonitoredItemModifyRequest", 757, func() any { return new(MonitoredItemModifyRequest) }, []vpField{{"MonitoredItemID", "UInt32", false}, {"RequestedParameters", "struct MonitoringParameters", false}}},
	{"MonitoredItemModifyResult", 760, func() any { return new(MonitoredItemModifyResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"RevisedSamplingInterval", "Double", false}, {"RevisedQueueSize", "UInt32", false}, {"FilterResult", "ExtensionObject", false}}},
	{"ModifyMonitoredItemsRequest", 763, func() any { return new(ModifyMonitoredItemsRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionID", "UInt32", false}, {"TimestampsToReturn", "enum32", false}, {"ItemsToModify", "struct MonitoredItemModifyRequest", true}}},
	{"ModifyMonitoredItemsResponse", 766, func() any { return new(ModifyMonitoredItemsResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct MonitoredItemModifyResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"SetMonitoringModeRequest", 769, func() any { return new(SetMonitoringModeRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionID", "UInt32", false}, {"MonitoringMode", "enum32", false}, {"MonitoredItemIDs", "UInt32", true}}},
	{"SetMonitoringModeResponse", 772, func() any { return new(SetMonitoringModeResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"SetTriggeringRequest", 775, func() any { return new(SetTriggeringRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionID", "UInt32", false}, {"TriggeringItemID", "UInt32", false}, {"LinksToAdd", "UInt32", true}, {"LinksToRemove", "UInt32", true}}},
	{"SetTriggeringResponse", 778, func() any { return new(SetTriggeringResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"AddResults", "StatusCode", true}, {"AddDiagnosticInfos", "DiagnosticInfo", true}, {"RemoveResults", "StatusCode", true}, {"RemoveDiagnosticInfos", "DiagnosticInfo", true}}},
	{"DeleteMonitoredItemsRequest", 781, func() any { return new(DeleteMonitoredItemsRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionID", "UInt32", false}, {"MonitoredItemIDs", "UInt32", true}}},
	{"DeleteMonitoredItemsResponse", 784, func() any { return new(DeleteMonitoredItemsResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"CreateSubscriptionRequest", 787, func() any { return new(CreateSubscriptionRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"RequestedPublishingInterval", "Double", false}, {"RequestedLifetimeCount", "UInt32", false}, {"RequestedMaxKeepAliveCount", "UInt32", false}, {"MaxNotificationsPerPublish", "UInt32", false}, {"PublishingEnabled", "Boolean", false}, {"Priority", "Byte", false}}},
	{"CreateSubscriptionResponse", 790, func() any { return new(CreateSubscriptionResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"SubscriptionID", "UInt32", false}, {"RevisedPublishingInterval", "Double", false}, {"RevisedLifetimeCount", "UInt32", false}, {"RevisedMaxKeepAliveCount", "UInt32", false}}},
	{"ModifySubscriptionRequest", 793, func() any { return new(ModifySubscriptionRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionID", "UInt32", false}, {"RequestedPublishingInterval", "Double", false}, {"RequestedLifetimeCount", "UInt32", false}, {"RequestedMaxKeepAliveCount", "UInt32", false}, {"MaxNotificationsPerPublish", "UInt32", false}, {"Priority", "Byte", false}}},
	{"ModifySubscriptionResponse", 796, func() any { return new(ModifySubscriptionResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"RevisedPublishingInterval", "Double", false}, {"RevisedLifetimeCount", "UInt32", false}, {"RevisedMaxKeepAliveCount", "UInt32", false}}},
	{"SetPublishingModeRequest", 799, func() any { return new(SetPublishingModeRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"PublishingEnabled", "Boolean", false}, {"SubscriptionIDs", "UInt32", true}}},
	{"SetPublishingModeResponse", 802, func() any { return new(SetPublishingModeResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"NotificationMessage", 805, func() any { return new(NotificationMessage) }, []vpField{{"SequenceNumber", "UInt32", false}, {"PublishTime", "DateTime", false}, {"NotificationData", "ExtensionObject", true}}},
	{"NotificationData", 947, func() any { return new(NotificationData) }, []vpField{}},
	{"DataChangeNotification", 811, func() any { return new(DataChangeNotification) }, []vpField{{"MonitoredItems", "struct MonitoredItemNotification", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"MonitoredItemNotification", 808, func() any { return new(MonitoredItemNotification) }, []vpField{{"ClientHandle", "UInt32", false}, {"Value", "DataValue", false}}},
	{"EventNotificationList", 916, func() any { return new(EventNotificationList) }, []vpField{{"Events", "struct EventFieldList", true}}},
	{"EventFieldList", 919, func() any { return new(EventFieldList) }, []vpField{{"ClientHandle", "UInt32", false}, {"EventFields", "Variant", true}}},
	{"HistoryEventFieldList", 922, func() any { return new(HistoryEventFieldList) }, []vpField{{"EventFields", "Variant", true}}},
	{"StatusChangeNotification", 820, func() any { return new(StatusChangeNotification) }, []vpField{{"Status", "StatusCode", false}, {"DiagnosticInfo", "DiagnosticInfo", false}}},
	{"SubscriptionAcknowledgement", 823, func() any { return new(SubscriptionAcknowledgement) }, []vpField{{"SubscriptionID", "UInt32", false}, {"SequenceNumber", "UInt32", false}}},
	{"PublishRequest", 826, func() any { return new(PublishRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionAcknowledgements", "struct SubscriptionAcknowledgement", true}}},
	{"PublishResponse", 829, func() any { return new(PublishResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"SubscriptionID", "UInt32", false}, {"AvailableSequenceNumbers", "UInt32", true}, {"MoreNotifications", "Boolean", false}, {"NotificationMessage", "struct NotificationMessage", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"RepublishRequest", 832, func() any { return new(RepublishRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionID", "UInt32", false}, {"RetransmitSequenceNumber", "UInt32", false}}},
	{"RepublishResponse", 835, func() any { return new(RepublishResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"NotificationMessage", "struct NotificationMessage", false}}},
	{"TransferResult", 838, func() any { return new(TransferResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"AvailableSequenceNumbers", "UInt32", true}}},
	{"TransferSubscriptionsRequest", 841, func() any { return new(TransferSubscriptionsRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionIDs", "UInt32", true}, {"SendInitialValues", "Boolean", false}}},
	{"TransferSubscriptionsResponse", 844, func() any { return new(TransferSubscriptionsResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "struct TransferResult", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"DeleteSubscriptionsRequest", 847, func() any { return new(DeleteSubscriptionsRequest) }, []vpField{{"RequestHeader", "struct RequestHeader", false}, {"SubscriptionIDs", "UInt32", true}}},
	{"DeleteSubscriptionsResponse", 850, func() any { return new(DeleteSubscriptionsResponse) }, []vpField{{"ResponseHeader", "struct ResponseHeader", false}, {"Results", "StatusCode", true}, {"DiagnosticInfos", "DiagnosticInfo", true}}},
	{"BuildInfo", 340, func() any { return new(BuildInfo) }, []vpField{{"ProductURI", "String", false}, {"ManufacturerName", "String", false}, {"ProductName", "String", false}, {"SoftwareVersion", "String", false}, {"BuildNumber", "String", false}, {"BuildDate", "DateTime", false}}},
	{"RedundantServerDataType", 855, func() any { return new(RedundantServerDataType) }, []vpField{{"ServerID", "String", false}, {"ServiceLevel", "Byte", false}, {"ServerState", "enum32", false}}},
	{"EndpointURLListDataType", 11957, func() any { return new(EndpointURLListDataType) }, []vpField{{"EndpointURLList", "String", true}}},
	{"NetworkGroupDataType", 11958, func() any { return new(NetworkGroupDataType) }, []vpField{{"ServerURI", "String", false}, {"NetworkPaths", "struct EndpointURLListDataType", true}}},
	{"SamplingIntervalDiagnosticsDataType", 858, func() any { return new(SamplingIntervalDiagnosticsDataType) }, []vpField{{"SamplingInterval", "Double", false}, {"MonitoredItemCount", "UInt32", false}, {"MaxMonitoredItemCount", "UInt32", false}, {"DisabledMonitoredItemCount", "UInt32", false}}},
	{"ServerDiagnosticsSummaryDataType", 861, func() any { return new(ServerDiagnosticsSummaryDataType) }, []vpField{{"ServerViewCount", "UInt32", false}, {"CurrentSessionCount", "UInt32", false}, {"CumulatedSessionCount", "UInt32", false}, {"SecurityRejectedSessionCount", "UInt32", false}, {"RejectedSessionCount", "UInt32", false}, {"SessionTimeoutCount", "UInt32", false}, {"SessionAbortCount", "UInt32", false}, {"CurrentSubscriptionCount", "UInt32", false}, {"CumulatedSubscriptionCount", "UInt32", false}, {"PublishingIntervalCount", "UInt32", false}, {"SecurityRejectedRequestsCount", "UInt32", false}, {"RejectedRequestsCount", "UInt32", false}}},
	{"ServerStatusDataType", 864, func() any { return new(ServerStatusDataType) }, []vpField{{"StartTime", "DateTime", false}, {"CurrentTime", "DateTime", false}, {"State", "enum32", false}, {"BuildInfo", "struct BuildInfo", false}, {"SecondsTillShutdown", "UInt32", false}, {"ShutdownReason", "LocalizedText", false}}},
	{"SessionDiagnosticsDataType", 867, func() any { return new(SessionDiagnosticsDataType) }, []vpField{{"SessionID", "NodeId", false}, {"SessionName", "String", false}, {"ClientDescription", "struct ApplicationDescription", false}, {"ServerURI", "String", false}, {"EndpointURL", "String", false}, {"LocaleIDs", "String", true}, {"ActualSessionTimeout", "Double", false}, {"MaxResponseMessageSize", "UInt32", false}, {"ClientConnectionTime", "DateTime", false}, {"ClientLastContactTime", "DateTime", false}, {"CurrentSubscriptionsCount", "UInt32", false}, {"CurrentMonitoredItemsCount", "UInt32", false}, {"CurrentPublishRequestsInQueue", "UInt32", false}, {"TotalRequestCount", "struct ServiceCounterDataType", false}, {"UnauthorizedRequestCount", "UInt32", false}, {"ReadCount", "struct ServiceCounterDataType", false}, {"HistoryReadCount", "struct ServiceCounterDataType", false}, {"WriteCount", "struct ServiceCounterDataType", false}, {"HistoryUpdateCount", "struct ServiceCounterDataType", false}, {"CallCount", "struct ServiceCounterDataType", false}, {"CreateMonitoredItemsCount", "struct ServiceCounterDataType", false}, {"ModifyMonitoredItemsCount", "struct ServiceCounterDataType", false}, {"SetMonitoringModeCount", "struct ServiceCounterDataType", false}, {"SetTriggeringCount", "struct ServiceCounterDataType", false}, {"DeleteMonitoredItemsCount", "struct ServiceCounterDataType", false}, {"CreateSubscriptionCount", "struct ServiceCounterDataType", false}, {"ModifySubscriptionCount", "struct ServiceCounterDataType", false}, {"SetPublishingModeCount", "struct ServiceCounterDataType", false}, {"PublishCount", "struct ServiceCounterDataType", false}, {"RepublishCount", "struct ServiceCounterDataType", false}, {"TransferSubscriptionsCount", "struct ServiceCounterDataType", false}, {"DeleteSubscriptionsCount", "struct ServiceCounterDataType", false}, {"AddNodesCount", "struct ServiceCounterDataType", false}, {"AddReferencesCount", "struct ServiceCounterDataType", false}, {"DeleteNodesCount", "struct ServiceCounterDataType", false}, {"DeleteReferencesCount", "struct ServiceCounterDataType", false}, {"BrowseCount", "struct ServiceCounterDataType", false}, {"BrowseNextCount", "struct ServiceCounterDataType", false}, {"TranslateBrowsePathsToNodeIDsCount", "struct ServiceCounterDataType", false}, {"QueryFirstCount", "struct ServiceCounterDataType", false}, {"QueryNextCount", "struct ServiceCounterDataType", false}, {"RegisterNodesCount", "struct ServiceCounterDataType", false}, {"UnregisterNodesCount", "struct ServiceCounterDataType", false}}},
	{"SessionSecurityDiagnosticsDataType", 870, func() any { return new(SessionSecurityDiagnosticsDataType) }, []vpField{{"SessionID", "NodeId", false}, {"ClientUserIDOfSession", "String", false}, {"ClientUserIDHistory", "String", true}, {"AuthenticationMechanism", "String", false}, {"Encoding", "String", false}, {"TransportProtocol", "String", false}, {"SecurityMode", "enum32", false}, {"SecurityPolicyURI", "String", false}, {"ClientCertificate", "ByteString", false}}},
	{"ServiceCounterDataType", 873, func() any { return new(ServiceCounterDataType) }, []vpField{{"TotalCount", "UInt32", false}, {"ErrorCount", "UInt32", false}}},
	{"StatusResult", 301, func() any { return new(StatusResult) }, []vpField{{"StatusCode", "StatusCode", false}, {"DiagnosticInfo", "DiagnosticInfo", false}}},
	{"SubscriptionDiagnosticsDataType", 876, func() any { return new(SubscriptionDiagnosticsDataType) }, []vpField{{"SessionID", "NodeId", false}, {"SubscriptionID", "UInt32", false}, {"Priority", "Byte", false}, {"PublishingInterval", "Double", false}, {"MaxKeepAliveCount", "UInt32", false}, {"MaxLifetimeCount", "UInt32", false}, {"MaxNotificationsPerPublish", "UInt32", false}, {"PublishingEnabled", "Boolean", false}, {"ModifyCount", "UInt32", false}, {"EnableCount", "UInt32", false}, {"DisableCount", "UInt32", false}, {"RepublishRequestCount", "UInt32", false}, {"RepublishMessageRequestCount", "UInt32", false}, {"RepublishMessageCount", "UInt32", false}, {"TransferRequestCount", "UInt32", false}, {"TransferredToAltClientCount", "UInt32", false}, {"TransferredToSameClientCount", "UInt32", false}, {"PublishRequestCount", "UInt32", false}, {"DataChangeNotificationsCount", "UInt32", false}, {"EventNotificationsCount", "UInt32", false}, {"NotificationsCount", "UInt32", false}, {"LatePublishRequestCount", "UInt32", false}, {"CurrentKeepAliveCount", "UInt32", false}, {"CurrentLifetimeCount", "UInt32", false}, {"UnacknowledgedMessageCount", "UInt32", false}, {"DiscardedMessageCount", "UInt32", false}, {"MonitoredItemCount", "UInt32", false}, {"DisabledMonitoredItemCount", "UInt32", false}, {"MonitoringQueueOverflowCount", "UInt32", false}, {"NextSequenceNumber", "UInt32", false}, {"EventQueueOverFlowCount", "UInt32", false}}},
	{"ModelChangeStructureDataType", 879, func() any { return new(ModelChangeStructureDataType) }, []vpField{{"Affected", "NodeId", false}, {"AffectedType", "NodeId", false}, {"Verb", "Byte", false}}},
	{"SemanticChangeStructureDataType", 899, func() any { return new(SemanticChangeStructureDataType) }, []vpField{{"Affected", "NodeId", false}, {"AffectedType", "NodeId", false}}},
	{"Range", 886, func() any { return new(Range) }, []vpField{{"Low", "Double", false}, {"High", "Double", false}}},
	{"EUInformation", 889, func() any { return new(EUInformation) }, []vpField{{"NamespaceURI", "String", false}, {"UnitID", "Int32", false}, {"DisplayName", "LocalizedText", false}, {"Description", "LocalizedText", false}}},
	{"ComplexNumberType", 12181, func() any { return new(ComplexNumberType) }, []vpField{{"Real", "Float", false}, {"Imaginary", "Float", false}}},
	{"DoubleComplexNumberType", 12182, func() any { return new(DoubleComplexNumberType) }, []vpField{{"Real", "Double", false}, {"Imaginary", "Double", false}}},
	{"AxisInformation", 12089, func() any { return new(AxisInformation) }, []vpField{{"EngineeringUnits", "struct EUInformation", false}, {"EURange", "struct Range", false}, {"Title", "LocalizedText", false}, {"AxisScaleType", "enum32", false}, {"AxisSteps", "Double", true}}},
	{"XVType", 12090, func() any { return new(XVType) }, []vpField{{"X", "Double", false}, {"Value", "Float", false}}},
	{"ProgramDiagnosticDataType", 896, func() any { return new(ProgramDiagnosticDataType) }, []vpField{{"CreateSessionID", "NodeId", false}, {"CreateClientName", "String", false}, {"InvocationCreationTime", "DateTime", false}, {"LastTransitionTime", "DateTime", false}, {"LastMethodCall", "String", false}, {"LastMethodSessionID", "NodeId", false}, {"LastMethodInputArguments", "struct Argument", true}, {"LastMethodOutputArguments", "struct Argument", true}, {"LastMethodCallTime", "DateTime", false}, {"LastMethodReturnStatus", "struct StatusResult", false}}},
	{"ProgramDiagnostic2DataType", 15397, func() any { return new(ProgramDiagnostic2DataType) }, []vpField{{"CreateSessionID", "NodeId", false}, {"CreateClientName", "String", false}, {"InvocationCreationTime", "DateTime", false}, {"LastTransitionTime", "DateTime", false}, {"LastMethodCall", "String", false}, {"LastMethodSessionID", "NodeId", false}, {"LastMethodInputArguments", "struct Argument", true}, {"LastMethodOutputArguments", "struct Argument", true}, {"LastMethodInputValues", "Variant", true}, {"LastMethodOutputValues", "Variant", true}, {"LastMethodCallTime", "DateTime", false}, {"LastMethodReturnStatus", "struct StatusResult", false}}},
	{"Annotation", 893, func() any { return new(Annotation) }, []vpField{{"Message", "String", false}, {"UserName", "String", false}, {"AnnotationTime", "DateTime", false}}},
}

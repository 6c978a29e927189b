// Code generated by reexport; DO NOT EDIT.

package credentials

import std "google.golang.org/grpc/credentials"

type AuthInfo = std.AuthInfo
type Bundle = std.Bundle
type ChannelzSecurityInfo = std.ChannelzSecurityInfo
type ChannelzSecurityValue = std.ChannelzSecurityValue
var CheckSecurityLevel = std.CheckSecurityLevel
type ClientHandshakeInfo = std.ClientHandshakeInfo
var ClientHandshakeInfoFromContext = std.ClientHandshakeInfoFromContext
type CommonAuthInfo = std.CommonAuthInfo
var ErrConnDispatched = std.ErrConnDispatched
const IntegrityOnly = std.IntegrityOnly
const InvalidSecurityLevel = std.InvalidSecurityLevel
const NoSecurity = std.NoSecurity
type OtherChannelzSecurityValue = std.OtherChannelzSecurityValue
type PerRPCCredentials = std.PerRPCCredentials
const PrivacyAndIntegrity = std.PrivacyAndIntegrity
type ProtocolInfo = std.ProtocolInfo
type RequestInfo = std.RequestInfo
var RequestInfoFromContext = std.RequestInfoFromContext
type SecurityLevel = std.SecurityLevel
type TLSChannelzSecurityValue = std.TLSChannelzSecurityValue
type TLSInfo = std.TLSInfo
type TransportCredentials = std.TransportCredentials

var _ = std.CheckSecurityLevel

// Code generated by reexport; DO NOT EDIT.

package grpc

import std "google.golang.org/grpc"

type BackoffConfig = std.BackoffConfig

var CallContentSubtype = std.CallContentSubtype
var CallCustomCodec = std.CallCustomCodec

type CallOption = std.CallOption
type ClientConnInterface = std.ClientConnInterface
type ClientStream = std.ClientStream

var Code = std.Code

type Codec = std.Codec
type Compressor = std.Compressor
type CompressorCallOption = std.CompressorCallOption
type ConnectParams = std.ConnectParams
type ContentSubtypeCallOption = std.ContentSubtypeCallOption
type CustomCodecCallOption = std.CustomCodecCallOption
type Decompressor = std.Decompressor

var DefaultBackoffConfig = std.DefaultBackoffConfig

type EmptyCallOption = std.EmptyCallOption
type EmptyDialOption = std.EmptyDialOption

var EnableTracing = std.EnableTracing
var ErrClientConnClosing = std.ErrClientConnClosing
var ErrClientConnTimeout = std.ErrClientConnTimeout
var ErrServerStopped = std.ErrServerStopped
var ErrorDesc = std.ErrorDesc
var Errorf = std.Errorf
var FailFast = std.FailFast

type FailFastCallOption = std.FailFastCallOption

var FailOnNonTempDialError = std.FailOnNonTempDialError
var ForceCodec = std.ForceCodec

type ForceCodecCallOption = std.ForceCodecCallOption

var Header = std.Header

type HeaderCallOption = std.HeaderCallOption

var MaxCallRecvMsgSize = std.MaxCallRecvMsgSize
var MaxCallSendMsgSize = std.MaxCallSendMsgSize

type MaxRecvMsgSizeCallOption = std.MaxRecvMsgSizeCallOption

var MaxRetryRPCBufferSize = std.MaxRetryRPCBufferSize

type MaxRetryRPCBufferSizeCallOption = std.MaxRetryRPCBufferSizeCallOption
type MaxSendMsgSizeCallOption = std.MaxSendMsgSizeCallOption
type MethodConfig = std.MethodConfig
type MethodDesc = std.MethodDesc

var MethodFromServerStream = std.MethodFromServerStream

type MethodInfo = std.MethodInfo

var NewClientStream = std.NewClientStream
var NewContextWithServerTransportStream = std.NewContextWithServerTransportStream
var NewGZIPCompressor = std.NewGZIPCompressor
var NewGZIPCompressorWithLevel = std.NewGZIPCompressorWithLevel
var NewGZIPDecompressor = std.NewGZIPDecompressor
var Peer = std.Peer

type PeerCallOption = std.PeerCallOption

var PerRPCCredentials = std.PerRPCCredentials

type PerRPCCredsCallOption = std.PerRPCCredsCallOption

const PickFirstBalancerName = std.PickFirstBalancerName

type PreparedMsg = std.PreparedMsg
type ServerStream = std.ServerStream
type ServerTransportStream = std.ServerTransportStream
type ServiceConfig = std.ServiceConfig
type ServiceDesc = std.ServiceDesc
type ServiceInfo = std.ServiceInfo
type ServiceRegistrar = std.ServiceRegistrar
type Stream = std.Stream
type StreamClientInterceptor = std.StreamClientInterceptor
type StreamDesc = std.StreamDesc
type StreamHandler = std.StreamHandler
type StreamServerInfo = std.StreamServerInfo
type StreamServerInterceptor = std.StreamServerInterceptor
type Streamer = std.Streamer

const SupportPackageIsVersion3 = std.SupportPackageIsVersion3
const SupportPackageIsVersion4 = std.SupportPackageIsVersion4
const SupportPackageIsVersion5 = std.SupportPackageIsVersion5
const SupportPackageIsVersion6 = std.SupportPackageIsVersion6
const SupportPackageIsVersion7 = std.SupportPackageIsVersion7

var Trailer = std.Trailer

type TrailerCallOption = std.TrailerCallOption
type UnaryClientInterceptor = std.UnaryClientInterceptor
type UnaryHandler = std.UnaryHandler
type UnaryInvoker = std.UnaryInvoker
type UnaryServerInfo = std.UnaryServerInfo
type UnaryServerInterceptor = std.UnaryServerInterceptor

var UseCompressor = std.UseCompressor

const Version = std.Version

var WaitForReady = std.WaitForReady
var WithBackoffConfig = std.WithBackoffConfig
var WithBackoffMaxDelay = std.WithBackoffMaxDelay
var WithBalancerName = std.WithBalancerName
var WithChainStreamInterceptor = std.WithChainStreamInterceptor
var WithChannelzParentID = std.WithChannelzParentID
var WithCodec = std.WithCodec
var WithCompressor = std.WithCompressor
var WithConnectParams = std.WithConnectParams
var WithContextDialer = std.WithContextDialer
var WithCredentialsBundle = std.WithCredentialsBundle
var WithDecompressor = std.WithDecompressor
var WithDefaultServiceConfig = std.WithDefaultServiceConfig
var WithDialer = std.WithDialer
var WithDisableHealthCheck = std.WithDisableHealthCheck
var WithDisableRetry = std.WithDisableRetry
var WithDisableServiceConfig = std.WithDisableServiceConfig
var WithInitialConnWindowSize = std.WithInitialConnWindowSize
var WithInitialWindowSize = std.WithInitialWindowSize
var WithMaxHeaderListSize = std.WithMaxHeaderListSize
var WithMaxMsgSize = std.WithMaxMsgSize
var WithNoProxy = std.WithNoProxy
var WithReadBufferSize = std.WithReadBufferSize
var WithResolvers = std.WithResolvers
var WithReturnConnectionError = std.WithReturnConnectionError
var WithServiceConfig = std.WithServiceConfig
var WithStatsHandler = std.WithStatsHandler
var WithStreamInterceptor = std.WithStreamInterceptor
var WithWriteBufferSize = std.WithWriteBufferSize

var _ = std.CallContentSubtype

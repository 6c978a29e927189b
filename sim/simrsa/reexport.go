// Code generated by reexport; DO NOT EDIT.

package rsa

import std "crypto/rsa"

type CRTValue = std.CRTValue

var DecryptOAEP = std.DecryptOAEP
var DecryptPKCS1v15 = std.DecryptPKCS1v15
var DecryptPKCS1v15SessionKey = std.DecryptPKCS1v15SessionKey
var EncryptOAEP = std.EncryptOAEP
var EncryptOAEPWithOptions = std.EncryptOAEPWithOptions
var EncryptPKCS1v15 = std.EncryptPKCS1v15
var ErrDecryption = std.ErrDecryption
var ErrMessageTooLong = std.ErrMessageTooLong
var ErrVerification = std.ErrVerification
var GenerateMultiPrimeKey = std.GenerateMultiPrimeKey

type OAEPOptions = std.OAEPOptions
type PKCS1v15DecryptOptions = std.PKCS1v15DecryptOptions
type PSSOptions = std.PSSOptions

const PSSSaltLengthAuto = std.PSSSaltLengthAuto
const PSSSaltLengthEqualsHash = std.PSSSaltLengthEqualsHash

type PrecomputedValues = std.PrecomputedValues
type PrivateKey = std.PrivateKey
type PublicKey = std.PublicKey

var SignPKCS1v15 = std.SignPKCS1v15
var SignPSS = std.SignPSS
var VerifyPKCS1v15 = std.VerifyPKCS1v15
var VerifyPSS = std.VerifyPSS

var _ = std.DecryptOAEP

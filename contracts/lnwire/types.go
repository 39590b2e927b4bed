package lnwire

import "github.com/lightningnetwork/lnd/tlv"

type tlvT = tlv.Type

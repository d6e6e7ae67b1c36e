"""Which rules decide which property."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Ctx
import model
import errors
import envelope
import routing
import keys
import unpack
import tsdecl
import udl
import compose, pack, sign, route, ffi, panics, effects, disclosure
import props

Context = Ctx

CHECKS = {}


def check(pid, *rules):
    q = [q for q in props.PROPS if q["id"] == pid][0]
    CHECKS[pid] = {"rules": rules, "technique": q["technique"], "explanation": q["explanation"], "level": "other"}


check("D01", model.message_wire)
check("D02", model.message_builder)
check("D03", model.attachment_wire, model.attachment_builder)
check("D04", model.did_doc_wire, model.service_wire)
check("D05", model.secret_wire)
check("D06", model.jwe_wire, model.jws_wire)
check("D07", model.algorithm_names, model.caller_algs, model.default_algs)
check("D08", model.resolvers)
check("D09", model.options)
check("D10", errors.accessors, errors.conversions, errors.foreign, errors.texts)
check("D11", routing.recognise)
check("D12", model.from_prior_wire, model.from_prior_builder)
check("D13", model.reports)
check("E01", envelope.jwe_parse, envelope.addressing)
check("E02", envelope.jws_parse)
check("K01", keys.key_material, keys.did_texts)
check("U01", unpack.signed)
check("U02", unpack.anoncrypted)
check("U03", unpack.authcrypted)

check("U04", unpack.from_prior)
check("U05", compose.composed, compose.plaintext, compose.own_key)
check("P01", pack.anoncrypt)
check("P02", pack.authcrypt)
check("P03", sign.pack_signed)
check("P04", sign.claim_packed)
check("P05", sign.plaintext_packed)
check("P06", sign.encrypted_packed)
check("R01", route.way_to)
check("R02", route.onion)
check("F01", ffi.uniffi_operations, ffi.uniffi_values)
check("F02", ffi.uniffi_resolvers, ffi.uniffi_examples)
check("F03", ffi.wasm_names)
check("F04", ffi.wasm_operations, ffi.wasm_forwards)
check("F05", ffi.wasm_resolvers)
check("F06", tsdecl.declarations)
check("F07", udl.interface, udl.offered)
check("X01", panics.library)
check("X02", panics.bindings)
check("X03", effects.effects)
check("X04", disclosure.disclosure)

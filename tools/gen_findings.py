#!/usr/bin/env python3
"""Writes known_findings.json. Run by hand; no check writes that file."""
import json, os
FIXED = """
766de4a C22 a PROXY v2 header with an unspecified family or protocol panicked the accepting task
bd0c076 C20 the SCRAM client did not escape ',' and '=' in user names and authorization identities
0c1e999 C20 the SCRAM client panicked on a server-final message starting with a multi-byte character
3b67be8 C19 the SCRAM server verified the proof over a rebuilt client-first message (extensions and reserved fields lost)
52de4c0 C19 the SCRAM server did not decode =2C and =3D in names
e750109 C12 removing the last member of a shared group left an index past the end: the next publish was lost
463b527 C24 a publish to a matched filter unsubscribed at the same moment panicked
f4fe82d C04 the first QoS 2 publish carrying DUP was taken for a redelivery and dropped
808c991 C04 an aliased QoS 2 redelivery was not recognised, and size was measured before the alias was resolved
711fa84 C04 a PUBREC with an error code was answered with PUBREL and kept its place in the window
0c09ddb C04 a repeated PUBREC was answered with an error
1231ca2 C14 an acknowledgement out of order did not free its place in the in-flight window
c610661 C14 a packet identifier still in use was assigned again
e848fb3 C14 expired messages at the head of the queue stopped the delivery of those behind them
4192b81 C12 publishes of v3 clients never reached shared subscriptions
84a22c1 C01 a v3 subscriber lost a message when one of its matching filters was unsubscribed while it was queued
2e876d5 C23 a refused or failed take-over leaked the online count or left the new connection hanging
b6058f0 C08 a discarded session left subscriptions and messages to its successor
f346e07 C10 the will of a connection that was taken over was not published
e3e6837 C10 DISCONNECT 0x04 did not publish the will
5bbac53 C02 a v3 subscription of lower QoS did not get the retained messages
54edbec C13 v3 subscribers got the retain flag on live messages
f4d433c C30 messages were retained although retain was announced as unavailable
cee16d2 C30 a publish above the announced maximum QoS was processed
c395776 C33 expired retained messages were sent, others with their full lifetime
dedeeb2 C23 a failure after the client was known left its session and its place in the counts behind
3e22d77 C07 a session not asked to be kept was resumed by a take-over
3c75337 C03 what a connection had published when it closed could be lost or block its session
996d7da C25 the after_connect hook followed the flag of before_connect
3dd5615 C14 a message already sent expired while it waited for its acknowledgement and its identifier was reused
ae7ca31 C33 the broker panicked when the system clock was set back
89f836f C17 the keep-alive timer of a closed connection kicked the next one of the session
a893230 C18 the SCRAM identity of an authenticated client was lost
37a45f9 C26 the WebSocket handshake was not subject to the connect timeout
5472444 C11 the session expiry interval of a DISCONNECT was not limited
f6465a7 C27 a partial write or a pending flush stalled the connection
6ab776e C15 the maximum packet size was compared with a packet other than the one sent
8777968 C04 a repeated PUBREL of a v3 client was not answered
0368fe9 C27 CONNACK and AUTH were not flushed on a buffered transport
9e6a3a2 C15 a SUBACK or UNSUBACK larger than the client's maximum packet size was sent
d1d9eca C21 a truncated pbkdf2 hash in the password file accepted other passwords
4f0246b C25 a v3 client was not told why a hook refused its connection
839c9ec C25 a subscribe action returned for a v3 session fetched the retained messages
2ec7a8e C25 a publish action returned for a v3 session lost its properties
5d11b33 C17 a client whose packet a hook was dealing with was taken for silent
54caf22 C27 a WebSocket pong that met a busy stream stayed unsent
babf39f C21 user names with leading spaces or line breaks did not survive the password file
"""
KNOWN = [
    dict(property="C15", signature="connack-larger-than-announced-maximum",
         what="a v5 client whose Maximum Packet Size is smaller than the CONNACK is accepted with that CONNACK "
              "(an existing test requires such a client to be accepted)"),
]
out = [dict(status="known", **k) for k in KNOWN]
for l in FIXED.strip().splitlines():
    c, p, what = l.split(" ", 2)
    out.append(dict(status="fixed", property=p, commit=c, what=f"fixed: property={p} {c} {what}"))
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
json.dump({"findings": out}, open(p, "w"), indent=1)
open(p, "a").write("\n")

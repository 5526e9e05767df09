#!/usr/bin/env python3
"""Writes /verif/known_findings.json. 'fixed' entries suppress nothing."""
import json
import os
F = []


def fixed(prop, commit, what):
    F.append({"id": "F%02d" % (len(F) + 1), "property": prop, "status": "fixed", "commit": commit, "what": what,
              "line": "fixed: property=%s %s %s" % (prop, commit, what)})


def known(prop, key, msg, what):
    F.append({"id": "F%02d" % (len(F) + 1), "property": prop, "status": "known", "key": key, "msg": msg, "what": what})


fixed("C01", "90cf4bb", "stoui*: negative numbers wrapped around to small unsigned values")
fixed("C01", "cb9be55", "stod/stof accepted '+-1.5'")
fixed("C01", "a0a1f08", "parse_array: stack overflow (std::regex) on long texts, malformed lists accepted")
fixed("C01", "1bc73e0", "parse_array<int>: fractions truncated, out-of-range values undefined behaviour")
fixed("C02", "7c5706d", "tf_prefix: back() of an empty string (prefix '~' without namespace)")
fixed("C05", "6a734a2", "a jerk command was clamped although the joint has no jerk limits")
fixed("C05", "f3b4ca8", "unknown (NaN) states disabled the joint limits")
fixed("C05", "695207a", "position limits that are switched off restricted the command")
fixed("C05", "43144d6", "velocity limit exceeded when returning into the position limits")
fixed("C05", "81d9a30", "a reference velocity beyond the limit lifted the velocity limit")
fixed("C06", "32ba80a", "invalid (inverted) range in the soft velocity/effort limits: undefined behaviour of std::clamp")
fixed("C06", "2293aba", "soft limits allowed a position beyond the hard limits")
fixed("C07", "92adc32", "no braking in time at the lower position limit")
fixed("C07", "6471f2c", "a zero velocity command was replaced by a motion towards zero")
fixed("C04", "4cf3a1f", "changes of limit parameters lost when a later parameter of the same update did not change")
fixed("C04", "5954861", "an update was based on outdated limits, dropping the previous update")
fixed("C04", "71ebaf7", "an update could make the limits in use contradictory (min > max)")
fixed("C10", "75deefa", "rw_rate '10abc' or '50.5' silently truncated")
fixed("C10", "45dd8e3", "size/thread_priority with many digits: std::out_of_range instead of the documented error, stack overflow in std::regex")
fixed("C10", "c2f7a0a", "crash (null pointer) on documents without root element and sdf without model")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_extra.py")).read())
json.dump({"findings": F}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)
print(len(F))

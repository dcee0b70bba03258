#!/usr/bin/env python3
"""Authoring-time source of known-findings.json (committed; no check writes it)."""
import json, os, subprocess
out = []
for ver in ["2024_11_05", "2025_03_26", "2025_06_18"]:
    for side in ["Client", "Server"]:
        for kind in ["Request", "Notification"]:
            for ty in [f"{side}Message", f"{side}Jsonrpc{kind}"]:
                out.append({"status": "open", "property": "C06", "version": ver,
                            "sig": f"{ty} custom {kind} nests method and params inside params",
                            "what": f"reading a {side.lower()} {kind.lower()} with a non-standard method and writing it back puts the original method and params as an object inside params"})
FIXED = [
    ("C20", "9b0cc26", "two schema versions enabled together did not compile: both brought a module of the same name (validators)"),
    ("C10", "b305c6a", "SdkError::bad_request carried another error's message"),
    ("C21", "3de62ee", "related_task_id did not find the task id that set_related_task_id wrote"),
    ("C09", "11d151d", "a client without task capabilities was said to handle tasks/cancel and tasks/list"),
    ("C04", "e92bb89", "titled and multi-select elicitation enums were read as plain strings or booleans, losing their values"),
    ("C04", "7afdfdf", "complete results inside tool, prompt and resource responses were read as input-required ones"),
    ("C04", "2fab866", "any result with a subscription id in its metadata was read as a subscriptions/listen result"),
    ("C01", "5d02abf", "the required, nullable ttl of a task was left out when written"),
    ("C15", "34d4fde", "an elicitation property of an unsupported type panicked instead of being refused"),
    ("C15", "2b744d2", "an elicitation string property with enum values was read as a plain string"),
    ("C01", "5ee5235", "an explicit null structuredContent was read as an absent one"),
    ("C06", "3662133", "a resources/list request without params was written with params null"),
    ("C03", "0128211", "a server result whose resultType is not a string was read as a complete result"),
    ("C10", "3332303", "a URL-elicitation-required error carried its elicitations as a bare array, not as the schema's data object"),
    ("C10", "a97c35b", "reporting a request timeout longer than u64::MAX milliseconds panicked"),
    ("C09", "1a1fb27", "a sampling request that provides tools was said to be handled by a client without sampling.tools"),
]
for p, h, w in FIXED:
    out.append({"status": "fixed", "property": p, "entry": f"fixed: property={p} {h} {w}"})
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.json"), "w"), indent=1)

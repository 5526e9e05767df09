"""A controller manager as the command-line tools see it: a reference model of the services, with faults."""
import stubs
from stubs import W

NAMES = ["load_controller", "configure_controller", "switch_controller", "unload_controller", "cleanup_controller", "list_controllers",
         "list_controller_types", "list_hardware_components", "list_hardware_interfaces", "reload_controller_libraries",
         "set_hardware_component_state", "set_parameters"]
TYPE_OF = {"load_controller": "LoadController", "configure_controller": "ConfigureController", "switch_controller": "SwitchController",
           "unload_controller": "UnloadController", "cleanup_controller": "CleanupController", "list_controllers": "ListControllers",
           "list_controller_types": "ListControllerTypes", "list_hardware_components": "ListHardwareComponents",
           "list_hardware_interfaces": "ListHardwareInterfaces", "reload_controller_libraries": "ReloadControllerLibraries",
           "set_hardware_component_state": "SetHardwareComponentState"}
MUTATING = {"load_controller", "configure_controller", "switch_controller", "unload_controller", "cleanup_controller",
            "reload_controller_libraries", "set_hardware_component_state", "set_parameters"}


class CM:
    """faults: {(service, occurrence index): 'fail' | 'silent'}; 'silent' answers are executed but never arrive."""

    def __init__(self, srvs, full_name, faults=None, known=None):
        self.srvs = srvs
        self.full = full_name
        self.state = {}          # controller -> unconfigured/inactive/active
        self.faults = faults or {}
        self.fault_of = {}       # (service, key) -> 'fail'
        self.n = {}
        self.calls = []          # mutating requests as (service, dict)
        self.params = {}
        self.known = known       # types known? None = all controllers can be loaded
        self.hw = {}             # name -> state label
        self.lock_seen = []
        self.on_call = None
        self.refuse_deactivation = False
        for s in NAMES:
            W.services[full_name + "/" + s] = (lambda d, s=s: self.serve(s, d))

    def serve(self, s, d):
        i = self.n.get(s, 0)
        self.n[s] = i + 1
        if s in MUTATING:
            self.calls.append((s, d))
            self.lock_seen.append(W.lock_owner not in (None, "other"))
        fault = self.faults.get((s, i))
        if fault is None:
            fault = self.fault_of.get((s, self.key(s, d)))
        if self.refuse_deactivation and s == "switch_controller" and d["deactivate_controllers"]:
            fault = "fail"
        if fault == "silent":
            return None
        if s == "set_parameters":
            res = stubs.module("rcl_interfaces.srv").SetParameters.Response()
            R = stubs.TYPES["rcl_interfaces/SetParametersResult"]
            ok = fault != "fail"
            if ok:
                for p in d["parameters"]:
                    self.params[p["name"]] = p["value"]
            res.results = [R(successful=ok) for _ in d["parameters"]]
            return res
        res = self.srvs[TYPE_OF[s]].Response()
        st = self.state
        ok = fault != "fail"
        if s == "load_controller":
            ok = ok and d["name"] not in st
            if ok:
                st[d["name"]] = "unconfigured"
            res.ok = ok
        elif s == "configure_controller":
            ok = ok and st.get(d["name"]) in ("unconfigured", "inactive")
            if ok:
                st[d["name"]] = "inactive"
            res.ok = ok
        elif s == "cleanup_controller":
            ok = ok and st.get(d["name"]) in ("inactive", "unconfigured")
            if ok:
                st[d["name"]] = "unconfigured"
            res.ok = ok
        elif s == "switch_controller":
            act, dea = d["activate_controllers"], d["deactivate_controllers"]
            if d["strictness"] == 2:
                ok = ok and all(st.get(c) == "inactive" for c in act) and all(st.get(c) == "active" for c in dea)
            if ok:
                for c in act:
                    if st.get(c) == "inactive":
                        st[c] = "active"
                for c in dea:
                    if st.get(c) == "active":
                        st[c] = "inactive"
            res.ok = ok
            res.message = "done" if ok else "refused"
        elif s == "unload_controller":
            ok = ok and d["name"] in st and st[d["name"]] != "active"
            if ok:
                del st[d["name"]]
            res.ok = ok
        elif s == "list_controllers":
            C = stubs.TYPES["ControllerState"]
            res.controller = [C(name=n, state=x, type="t/" + n) for n, x in st.items()]
        elif s == "list_hardware_components":
            H = stubs.TYPES["HardwareComponentState"]
            S = stubs.TYPES["State"]
            ids = {"unconfigured": 1, "inactive": 2, "active": 3, "finalized": 4}
            res.component = [H(name=n, type="system", state=S(id=ids[x], label=x)) for n, x in self.hw.items()]
        elif s == "set_hardware_component_state":
            S = stubs.TYPES["State"]
            ids = {"unconfigured": 1, "inactive": 2, "active": 3, "finalized": 4}
            ok = ok and d["name"] in self.hw
            if ok and fault != "wrong_state":
                self.hw[d["name"]] = d["target_state"]["label"]
            res.ok = ok
            x = self.hw.get(d["name"], "unconfigured")
            res.state = S(id=ids[x], label=x)
        elif s == "reload_controller_libraries":
            res.ok = ok
        return res

    @staticmethod
    def key(s, d):
        if s == "switch_controller":
            return ("+" + ",".join(d["activate_controllers"])) if d["activate_controllers"] else ("-" + ",".join(d["deactivate_controllers"]))
        if s == "set_parameters":
            return ",".join(p["name"] for p in d["parameters"])
        return d.get("name", "")


def pvalue(v):
    """Plain value of a ParameterValue dict."""
    return {1: v["bool_value"], 2: v["integer_value"], 3: v["double_value"], 4: v["string_value"], 6: v["bool_array_value"],
            7: v["integer_array_value"], 8: v["double_array_value"], 9: v["string_array_value"]}.get(v["type"])

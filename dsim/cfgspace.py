"""Configuration space as the PCI Express specification lays it out: which bits each register has,
which of them software may write, and which attribute of the model's object stands for them.

A register is a list of fields (lsb, width, kind, attribute).  Kinds:
  ro    reads as the attribute, never changed by a write
  rw    changed by a write that enables its byte
  w1c   set by hardware (the attribute), cleared by writing one
  0/n   constant
Bits not listed read as zero; `ignore` bits are not judged.
"""


def f(lsb, width, kind, attr=None):
    return (lsb, width, kind, attr)


class Reg:
    def __init__(self, fields=(), ignore=0, obj=None):
        self.fields = list(fields)
        self.ignore = ignore
        self.obj = obj
        self.rw = self.w1c = self.ro = 0
        for lsb, width, kind, attr in fields:
            m = ((1 << width) - 1) << lsb
            if kind == "rw":
                self.rw |= m
            elif kind == "w1c":
                self.w1c |= m
            else:
                self.ro |= m

    def fixed(self):
        """Value of the bits hardware alone decides, from the attributes."""
        v = 0
        for lsb, width, kind, attr in self.fields:
            if kind in ("ro", "w1c"):
                v |= (int(getattr(self.obj, attr)) & ((1 << width) - 1)) << lsb
            elif kind == "hi":      # aligned offset sharing a register with a smaller field
                v |= int(getattr(self.obj, attr)) & (((1 << width) - 1) << lsb)
            elif isinstance(kind, int):
                v |= kind << lsb
        return v

    def write(self, state, data, be):
        m = sum(0xff << (8 * i) for i in range(4) if be >> i & 1)
        rw = self.rw & m
        state = (state & ~rw) | (data & rw)
        return state & ~(data & m & self.w1c)


def byte_bits(names, kind, start=0):
    return [f(start + i, 1, kind, n) for i, n in enumerate(names) if n]


def common(fn, bridge):
    r = {}
    r[0] = Reg([f(0, 16, "ro", "vendor_id"), f(16, 16, "ro", "device_id")], obj=fn)
    st = [f(24, 1, "w1c", "master_data_parity_error"), f(27, 1, "w1c", "signaled_target_abort"), f(28, 1, "w1c", "received_target_abort"),
        f(29, 1, "w1c", "received_master_abort"), f(30, 1, "w1c", "signaled_system_error"), f(31, 1, "w1c", "detected_parity_error")]
    # a bridge may set its abort bits itself when error completions pass
    r[1] = Reg([f(0, 1, "rw", "io_space_enable"), f(1, 1, "rw", "memory_space_enable"), f(2, 1, "rw", "bus_master_enable"),
        f(6, 1, "rw", "parity_error_response_enable"), f(8, 1, "rw", "serr_enable"), f(10, 1, "rw", "interrupt_disable"),
        f(19, 1, "ro", "interrupt_status"), f(20, 1, 1)] + st, obj=fn, ignore=0x38000000 if bridge else 0)
    r[2] = Reg([f(0, 8, "ro", "revision_id"), f(8, 24, "ro", "class_code")], obj=fn)
    r[3] = Reg([f(0, 8, "rw", "cache_line_size"), f(8, 8, "ro", "latency_timer"), f(16, 7, 1 if bridge else 0), f(23, 1, "ro", "multifunction_device"),
        f(24, 4, "ro", "bist_completion_code"), f(30, 1, "rw", "start_bist"), f(31, 1, "ro", "bist_capable")], obj=fn)
    return r


def bar_reg(kind, size, high):
    """Writable bits of one BAR dword."""
    if high:
        return Reg([f(i, 1, "rw") for i in range(32) if (1 << (32 + i)) >= size])
    low = {"m32": 0, "m32p": 8, "m64": 4, "m64p": 12, "io": 1}[kind]
    lo = 2 if kind == "io" else 4
    return Reg([f(0, lo, low)] + [f(i, 1, "rw") for i in range(lo, 32) if (1 << i) >= size])


def rom_reg(fn, size):
    if not size:
        return Reg(ignore=1)
    return Reg([f(0, 1, "rw")] + [f(i, 1, "rw") for i in range(11, 32) if (1 << i) >= size])


def endpoint(fn, bars, rom):
    """bars: list of (index, kind, size)"""
    r = common(fn, False)
    for i in range(4, 10):
        r[i] = Reg()
    for idx, kind, size in bars:
        r[4 + idx] = bar_reg(kind, size, False)
        if kind.startswith("m64"):
            r[5 + idx] = bar_reg(kind, size, True)
    r[10] = Reg()
    r[11] = Reg([f(0, 16, "ro", "subsystem_vendor_id"), f(16, 16, "ro", "subsystem_id")], obj=fn)
    r[12] = rom_reg(fn, rom)
    r[14] = Reg()
    r[15] = Reg([f(0, 8, "rw", "interrupt_line"), f(8, 8, "ro", "interrupt_pin")], obj=fn)
    return r


def bridge(fn):
    r = common(fn, True)
    r[4] = Reg()
    r[5] = Reg()
    r[6] = Reg([f(0, 8, "rw", "pri_bus_num"), f(8, 8, "rw", "sec_bus_num"), f(16, 8, "rw", "sub_bus_num"), f(24, 8, "ro", "sec_lat_timer")], obj=fn)
    r[7] = Reg([f(0, 4, 1), f(4, 4, "rw"), f(8, 4, 1), f(12, 4, "rw"), f(24, 1, "w1c", "sec_master_data_parity_error"),
        f(27, 1, "w1c", "sec_signaled_target_abort"), f(28, 1, "w1c", "sec_received_target_abort"), f(29, 1, "w1c", "sec_received_master_abort"),
        f(30, 1, "w1c", "sec_received_system_error"), f(31, 1, "w1c", "sec_detected_parity_error")], obj=fn, ignore=0x38000000)
    r[8] = Reg([f(4, 12, "rw"), f(20, 12, "rw")])
    r[9] = Reg([f(0, 4, 1), f(4, 12, "rw"), f(16, 4, 1), f(20, 12, "rw")])
    r[10] = Reg([f(0, 32, "rw")])
    r[11] = Reg([f(0, 32, "rw")])
    r[12] = Reg([f(0, 32, "rw")])
    r[14] = rom_reg(fn, 0)
    r[15] = Reg([f(0, 8, "rw", "interrupt_line"), f(8, 8, "ro", "interrupt_pin"), f(16, 1, "rw", "bridge_parity_error_response_enable"),
        f(17, 1, "rw", "bridge_serr_enable"), f(22, 1, "rw", "secondary_bus_reset")], obj=fn)
    return r


def pm(c):
    return {
        0: Reg([f(16, 3, 3), f(19, 1, "ro", "pme_clock"), f(20, 1, "ro", "immediate_readiness_on_return_to_d0"),
            f(21, 1, "ro", "device_specific_initialization"), f(22, 3, "ro", "aux_current"), f(25, 1, "ro", "d1_support"),
            f(26, 1, "ro", "d2_support"), f(27, 5, "ro", "pme_support")], obj=c),
        1: Reg([f(0, 2, "rw", "power_state"), f(3, 1, "ro", "no_soft_reset"), f(8, 1, "rw", "pme_enable"), f(9, 4, "rw", "data_select"),
            f(13, 2, "ro", "data_scale"), f(15, 1, "w1c", "pme_status"), f(24, 8, "ro", "pm_data")], obj=c),
    }


def pcie(c, devtype):
    return {
        0: Reg([f(16, 4, 2), f(20, 4, devtype), f(24, 1, "ro", "pcie_slot_implemented"), f(25, 5, "ro", "interrupt_message_number")], obj=c),
        1: Reg([f(0, 3, "ro", "max_payload_size_supported"), f(3, 2, "ro", "phantom_functions_supported"), f(5, 1, "ro", "extended_tag_supported"),
            f(6, 3, "ro", "endpoint_l0s_acceptable_latency"), f(9, 3, "ro", "endpoint_l1_acceptable_latency"), f(15, 1, "ro", "role_based_error_reporting"),
            f(18, 8, "ro", "captured_slot_power_limit_value"), f(26, 2, "ro", "captured_slot_power_limit_scale"),
            f(28, 1, "ro", "function_level_reset_capability")], obj=c),
        2: Reg([f(0, 1, "rw", "correctable_error_reporting_enable"), f(1, 1, "rw", "non_fatal_error_reporting_enable"),
            f(2, 1, "rw", "fatal_error_reporting_enable"), f(3, 1, "rw", "unsupported_request_reporting_enable"), f(4, 1, "rw", "enable_relaxed_ordering"),
            f(5, 3, "rw", "max_payload_size"), f(8, 1, "rw", "extended_tag_field_enable"), f(9, 1, "rw", "phantom_functions_enable"),
            f(10, 1, "rw", "aux_power_pm_enable"), f(11, 1, "rw", "enable_no_snoop"), f(12, 3, "rw", "max_read_request_size"),
            f(16, 1, "w1c", "correctable_error_detected"), f(17, 1, "w1c", "nonfatal_error_detected"), f(18, 1, "w1c", "fatal_error_detected"),
            f(19, 1, "w1c", "unsupported_request_detected"), f(20, 1, "ro", "aux_power_detected"), f(21, 1, "ro", "transactions_pending"),
            f(22, 1, "w1c", "emergency_power_reduction_detected")], obj=c),
        3: Reg([f(0, 4, "ro", "max_link_speed"), f(4, 6, "ro", "max_link_width"), f(10, 2, "ro", "aspm_support"), f(12, 3, "ro", "l0s_exit_latency"),
            f(15, 3, "ro", "l1_exit_latency"), f(18, 1, "ro", "clock_power_management"), f(19, 1, "ro", "surprise_down_error_reporting_capability"),
            f(20, 1, "ro", "data_link_layer_link_active_reporting_capable"), f(21, 1, "ro", "link_bandwidth_notification_capability"),
            f(22, 1, "ro", "aspm_optionality_compliance"), f(24, 8, "ro", "port_number")], obj=c),
        4: Reg([f(0, 2, "rw", "aspm_control"), f(3, 1, "rw", "read_completion_boundary"), f(4, 1, "rw", "link_disable"),
            f(6, 1, "rw", "common_clock_configuration"), f(7, 1, "rw", "extended_synch"), f(8, 1, "rw", "enable_clock_power_management"),
            f(9, 1, "rw", "hardware_autonomous_width_disable"), f(10, 1, "rw", "link_bandwidth_management_interrupt_enable"),
            f(11, 1, "rw", "link_autonomous_bandwidth_interrupt_enable"), f(14, 2, "rw", "drs_signalling_control"),
            f(16, 4, "ro", "current_link_speed"), f(20, 6, "ro", "negotiated_link_width"), f(27, 1, "ro", "link_training"),
            f(28, 1, "ro", "slot_clock_configuration"), f(29, 1, "ro", "data_link_layer_link_active"),
            f(30, 1, "w1c", "link_bandwidth_management_status"), f(31, 1, "w1c", "link_autonomous_bandwidth_status")], obj=c),
        5: Reg([f(0, 1, "ro", "attention_button_present"), f(1, 1, "ro", "power_controller_present"), f(2, 1, "ro", "mrl_sensor_present"),
            f(3, 1, "ro", "attention_indicator_present"), f(4, 1, "ro", "power_indicator_present"), f(5, 1, "ro", "hot_plug_surprise"),
            f(6, 1, "ro", "hot_plug_capable"), f(7, 8, "ro", "slot_power_limit_value"), f(15, 2, "ro", "slot_power_limit_scale"),
            f(17, 1, "ro", "electromechanical_interlock_present"), f(18, 1, "ro", "no_command_completed_support"),
            f(19, 13, "ro", "physical_slot_number")], obj=c),
        6: Reg([f(0, 1, "rw", "attention_button_pressed_enable"), f(1, 1, "rw", "power_fault_detected_enable"), f(2, 1, "rw", "mrl_sensor_changed_enable"),
            f(3, 1, "rw", "presence_detect_changed_enable"), f(4, 1, "rw", "command_completed_interrupt_enable"), f(5, 1, "rw", "hot_plug_interrupt_enable"),
            f(6, 2, "rw", "attention_indicator_control"), f(8, 2, "rw", "power_indicator_control"), f(10, 1, "rw", "power_controller_control"),
            f(12, 1, "rw", "data_link_layer_state_changed_enable"), f(13, 1, "rw", "auto_slot_power_limit_disable"),
            f(16, 1, "w1c", "attention_button_pressed"), f(17, 1, "w1c", "power_fault_detected"), f(18, 1, "w1c", "mrl_sensor_changed"),
            f(19, 1, "w1c", "presence_detect_changed"), f(20, 1, "w1c", "command_completed"), f(21, 1, "ro", "mrl_sensor_state"),
            f(22, 1, "ro", "presence_detect_state"), f(23, 1, "ro", "electromechanical_interlock_status"),
            f(24, 1, "w1c", "data_link_layer_state_changed")], obj=c, ignore=1 << 11),
        7: Reg([f(0, 1, "rw", "system_error_on_correctable_error_enable"), f(1, 1, "rw", "system_error_on_non_fatal_error_enable"),
            f(2, 1, "rw", "system_error_on_fatal_error_enable"), f(3, 1, "rw", "pme_interrupt_enable"), f(4, 1, "rw", "crs_software_visibility_enable"),
            f(16, 1, "ro", "crs_software_visibility")], obj=c),
        8: Reg([f(0, 16, "ro", "pme_requester_id"), f(16, 1, "w1c", "pme_status"), f(17, 1, "ro", "pme_pending")], obj=c),
        9: Reg([f(0, 4, "ro", "completion_timeout_ranges_supported"), f(4, 1, "ro", "completion_timeout_disable_supported"),
            f(5, 1, "ro", "ari_forwarding_supported"), f(6, 1, "ro", "atomic_op_forwarding_supported"), f(7, 1, "ro", "atomic_op_32_bit_completer_supported"),
            f(8, 1, "ro", "atomic_op_64_bit_completer_supported"), f(9, 1, "ro", "cas_128_bit_completer_supported"),
            f(10, 1, "ro", "no_ro_enabled_pr_pr_passing"), f(11, 1, "ro", "ltr_mechanism_supported"), f(12, 2, "ro", "tph_completer_supported"),
            f(18, 2, "ro", "obff_supported"), f(20, 1, "ro", "extended_fmt_field_supported"), f(21, 1, "ro", "end_end_tlp_prefix_supported"),
            f(22, 2, "ro", "max_end_end_tlp_prefix"), f(24, 2, "ro", "emergency_power_reduction_supported"),
            f(26, 1, "ro", "emergency_power_reduction_initialization_required"), f(31, 1, "ro", "frs_supported")], obj=c),
        10: Reg([f(0, 4, "rw", "completion_timeout_value"), f(4, 1, "rw", "completion_timeout_disable"), f(5, 1, "rw", "ari_forwarding_enable"),
            f(6, 1, "rw", "atomic_op_requester_enable"), f(7, 1, "rw", "atomic_op_egress_blocking"), f(8, 1, "rw", "ido_request_enable"),
            f(9, 1, "rw", "ido_completion_enable"), f(10, 1, "rw", "ltr_mechanism_enable"), f(11, 1, "rw", "emergency_power_reduction_request"),
            f(12, 1, "rw", "ten_bit_tag_requester_enable"), f(13, 2, "rw", "obff_enable"), f(15, 1, "rw", "end_end_tlp_prefix_blocking")], obj=c),
        11: Reg([f(1, 7, "ro", "supported_link_speeds"), f(8, 1, "ro", "crosslink_supported"), f(9, 7, "ro", "lower_skp_os_generation_supported_speeds"),
            f(16, 7, "ro", "lower_skp_os_reception_supported_speeds"), f(23, 1, "ro", "retimer_presence_detect_supported"),
            f(24, 1, "ro", "two_retimers_presence_detect_supported"), f(31, 1, "ro", "drs_supported")], obj=c),
        12: Reg([f(0, 4, "rw", "target_link_speed"), f(4, 1, "rw", "enter_compliance"), f(5, 1, "rw", "hardware_autonomous_speed_disable"),
            f(6, 1, "ro", "selectable_deemphasis"), f(7, 3, "rw", "transmit_margin"), f(10, 1, "rw", "enter_modified_compliance"),
            f(11, 1, "rw", "compliance_sos"), f(12, 4, "rw", "compliance_preset_deemphasis"),
            f(16, 1, "ro", "current_deemphasis_level"), f(17, 1, "ro", "equalization_8gt_complete"), f(18, 1, "ro", "equalization_8gt_phase_1_successful"),
            f(19, 1, "ro", "equalization_8gt_phase_2_successful"), f(20, 1, "ro", "equalization_8gt_phase_3_successful"),
            f(21, 1, "w1c", "link_equalization_8gt_request"), f(22, 1, "ro", "retimer_presence_detected"), f(23, 1, "ro", "two_retimers_presence_detected"),
            f(24, 2, "ro", "crosslink_resolution"), f(28, 3, "ro", "downstream_component_presence"), f(31, 1, "w1c", "drs_message_received")], obj=c),
        13: Reg(), 14: Reg(),
    }


def msi(c):
    a64 = c.msi_64bit_address_capable
    r = {0: Reg([f(16, 1, "rw", "msi_enable"), f(17, 3, "ro", "msi_multiple_message_capable"), f(20, 3, "rw", "msi_multiple_message_enable"),
        f(23, 1, "ro", "msi_64bit_address_capable"), f(24, 1, "ro", "msi_per_vector_mask_capable"), f(25, 1, "ro", "msi_extended_message_data_capable"),
        f(26, 1, "rw" if c.msi_extended_message_data_capable else "ro", "msi_extended_message_data_enable")], obj=c),
        1: Reg([f(2, 30, "rw")])}
    n = 2
    if a64:
        r[2] = Reg([f(0, 32, "rw")])
        n = 3
    r[n] = Reg([f(0, 32 if c.msi_extended_message_data_capable else 16, "rw", "msi_message_data")], obj=c)
    if c.msi_per_vector_mask_capable:
        r[n+1] = Reg([f(0, 32, "rw", "msi_mask_bits")], obj=c)
        r[n+2] = Reg([f(0, 32, "ro", "msi_pending_bits")], obj=c)
    return r


def msix(c):
    return {0: Reg([f(16, 11, "ro", "msix_table_size"), f(30, 1, "rw", "msix_function_mask"), f(31, 1, "rw", "msix_enable")], obj=c),
        1: Reg([f(0, 3, "ro", "msix_table_bar_indicator_register"), f(3, 29, "hi", "msix_table_offset")], obj=c),
        2: Reg([f(0, 3, "ro", "msix_pba_bar_indicator_register"), f(3, 29, "hi", "msix_pba_offset")], obj=c)}


UNC = {4: "data_link_protocol_error", 5: "surprise_down_error", 12: "poisoned_tlp_received", 13: "flow_control_protocol_error",
    14: "completion_timeout", 15: "completer_abort", 16: "unexpected_completion", 17: "receiver_overflow", 18: "malformed_tlp",
    19: "ecrc_error", 20: "unsupported_request_error", 21: "acs_violation", 22: "uncorrectable_internal_error", 23: "mc_blocked_tlp",
    24: "atomicop_egress_blocked", 25: "tlp_prefix_blocked_error", 26: "poisoned_tlp_egress_blocked"}
COR = {0: "receiver_error", 6: "bad_tlp", 7: "bad_dllp", 8: "replay_num_rollover", 12: "replay_timer_timeout", 13: "advisory_nonfatal_error",
    14: "corrected_internal_error", 15: "header_log_overflow"}


class Item:
    """One element of a list attribute, as an object with an attribute."""

    def __init__(self, lst, i):
        self.__dict__["lst"] = lst
        self.__dict__["i"] = i

    @property
    def value(self):
        return self.lst[self.i]

    @value.setter
    def value(self, v):
        self.lst[self.i] = v

    def __setattr__(self, n, v):
        self.lst[self.i] = v


def aer(c, length):
    r = {1: Reg([f(b, 1, "w1c", n + "_status") for b, n in UNC.items()], obj=c),
        2: Reg([f(b, 1, "rw", n + "_mask") for b, n in UNC.items()], obj=c),
        3: Reg([f(b, 1, "rw", n + "_severity") for b, n in UNC.items()], obj=c),
        4: Reg([f(b, 1, "w1c", n + "_status") for b, n in COR.items()], obj=c),
        5: Reg([f(b, 1, "rw", n + "_mask") for b, n in COR.items()], obj=c),
        6: Reg([f(0, 5, "ro", "first_error_pointer"), f(5, 1, "ro", "ecrc_generation_capable"), f(6, 1, "rw", "ecrc_generation_enable"),
            f(7, 1, "ro", "ecrc_check_capable"), f(8, 1, "rw", "ecrc_check_enable"), f(9, 1, "ro", "multiple_header_recording_capable"),
            f(10, 1, "rw", "multiple_header_recording_enable"), f(11, 1, "ro", "tlp_prefix_log_present"),
            f(12, 1, "ro", "completion_timeout_prefix_header_log_capable")], obj=c)}
    for i in range(4):
        r[7+i] = Reg([f(0, 32, "ro", "value")], obj=Item(c.header_log, i))
    if length > 11:
        r[11] = Reg([f(0, 1, "rw", "correctable_error_reporting_enable"), f(1, 1, "rw", "nonfatal_error_reporting_enable"),
            f(2, 1, "rw", "fatal_error_reporting_enable")], obj=c)
        r[12] = Reg([f(0, 1, "w1c", "err_cor_received"), f(1, 1, "w1c", "multiple_err_cor_received"), f(2, 1, "w1c", "err_fatal_nonfatal_received"),
            f(3, 1, "w1c", "multiple_err_fatal_nonfatal_received"), f(4, 1, "w1c", "first_uncorrectable_fatal"),
            f(5, 1, "w1c", "nonfatal_error_messages_received"), f(6, 1, "w1c", "fatal_error_messages_received"),
            f(27, 5, "ro", "advanced_error_interrupt_message_number")], obj=c)
        r[13] = Reg([f(0, 16, "ro", "err_cor_source_identification"), f(16, 16, "ro", "err_fatal_nonfatal_source_identification")], obj=c)
    if length > 14:
        for i in range(4):
            r[14+i] = Reg([f(0, 32, "ro", "value")], obj=Item(c.tlp_prefix_log, i))
    return r


class Lane:
    """Equalisation settings of two adjacent lanes."""

    def __init__(self, c, n):
        self.__dict__["c"] = c
        self.__dict__["n"] = n

    def at(self, name):
        base, lane = name.rsplit("@", 1)
        return getattr(self.c, base), self.n * 2 + int(lane)

    def __getattr__(self, name):
        l, i = self.at(name)
        return l[i]

    def __setattr__(self, name, v):
        l, i = self.at(name)
        l[i] = v


def exp2(c, length):
    r = {1: Reg([f(0, 1, "rw", "perform_equalization"), f(1, 1, "rw", "link_equalization_request_interrupt_enable"),
        f(9, 7, "rw", "enable_lower_skp_os_generation")], obj=c),
        2: Reg([f(0, 32, "w1c", "lane_error_status")], obj=c)}
    for k in range(length - 3):
        fs = []
        for lane in range(2):
            b = 16 * lane
            fs += [f(b, 4, "ro", f"downstream_port_8gt_transmitter_preset@{lane}"), f(b + 4, 3, "ro", f"downstream_port_8gt_receiver_preset_hint@{lane}"),
                f(b + 8, 4, "ro", f"upstream_port_8gt_transmitter_preset@{lane}"), f(b + 12, 3, "ro", f"upstream_port_8gt_receiver_preset_hint@{lane}")]
        r[3 + k] = Reg(fs, obj=Lane(c, k))
    return r

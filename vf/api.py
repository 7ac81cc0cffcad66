"""The public surface of the code under test, found without depending on private names."""
import warnings


def engine(**kw):
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return EcosizerEngine(**kw)


def parts(eng):
    """(dhw_system, building) held by a facade object."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    sysm = bld = None
    for v in vars(eng).values():
        if isinstance(v, DHWSystem):
            sysm = v
        elif isinstance(v, Building):
            bld = v
    return sysm, bld


def Controls(c):
    from ecoengine.objects.components.heating.Controls import Controls as C
    return C(on_sensor_fract=c.on_f, on_trigger_t_f=c.on_t, off_sensor_fract=c.off_f, off_trigger_t_f=c.off_t, outlet_temp_f=c.out_t)


def control_map(ctl):
    return {k: Controls(c) for k, c in ctl.items()} if ctl else None


def building(demand, climate_spec, annual=False, **kw):
    from ecoengine.objects.building.Building import Building
    return Building(climate_zone=zone(climate_spec), daily_dhw_use_supplyT_gal=demand.daily, peak_load_shape=demand.peak,
                    avg_load_shape=demand.avg, building_type=demand.btype, **kw)


def zone(spec):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    if isinstance(spec, dict):
        return ClimateZone.from_design_conditions(**spec)
    if isinstance(spec, int) and spec <= 96:
        return ClimateZone.from_zone_id(spec)
    s = str(spec)
    if s.isdigit() and len(s) == 5:
        return ClimateZone.from_zip_code(s)
    return ClimateZone.from_weather_station(s)


def system_class(schematic):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    return {"primary_no_recirc": DHWSystem, "parallel_loop": ParallelLoopSystem, "swing_tank": SwingSystem,
            "swing_er": SwingERTrdOffSystem, "single_pass_rtp": SinglePassRTPSystem, "multi_pass_rtp": MultiPassRTPSystem,
            "instant_wh": InstantWHSystem}[schematic]


def sized(sysm):
    """Sizing result through the public getters."""
    out = {"cap": sysm.get_minimum_capacity_kbtuh(), "vol": sysm.get_minimum_storage_storageT_gal()}
    for k, g in (("tm_vol", "get_minimum_tm_volume_gal"), ("tm_cap", "get_minimum_tm_capacity_kbtuh"), ("tm_ca", "get_minimum_tm_ca_volume_gal")):
        if hasattr(sysm, g):
            try:
                out[k] = getattr(sysm, g)()
            except RuntimeError:  # documented: not available on a system that was never sized
                pass
    return out

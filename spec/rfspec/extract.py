"""Cutting earthquake windows out of continuous data, as a specification (never executed)."""
from glob import glob
from obspy import read, Stream, read_events
from obspy.geodetics.base import locations2degrees
from obspy.taup import TauPyModel


def onset_of(event, stalat, stalon):
    o = event.origins[0]
    d = locations2degrees(stalat, stalon, o.latitude, o.longitude)
    arrivals = TauPyModel(model='iasp91').get_travel_times(source_depth_in_km=o.depth / 1000, distance_in_degree=d)
    return o.time + arrivals[0].time


def window_of(event, stalat, stalon, Request_window):
    p = onset_of(event, stalat, stalon)
    return [{'eqstart': p - abs(Request_window[0]), 'eqend': p + abs(Request_window[1]), 'onset': p}]


def event_window(catalog):
    return window_of(catalog, catalog.stalat, catalog.stalon, [catalog.Request_start, catalog.Request_end])


def all_windows(catalogfile, stalat, stalon, Request_window):
    return [window_of(e, stalat, stalon, Request_window) for e in read_events(catalogfile)]


def tag(st, onset):
    for tr in st:
        tr.stats.onset = onset


# ---- what is written: files x events, files outside or events outside
def by_file(files, events, stalat, stalon, Request_window, filename):
    out = Stream()
    for f in files:
        for e in events:
            w = window_of(e, stalat, stalon, Request_window)[0]
            st = read(f, starttime=w['eqstart'], endtime=w['eqend'])
            tag(st, w['onset'])
            out += st
    out.write(filename)


def by_event(files, events, stalat, stalon, Request_window, filename):
    out = Stream()
    for e in events:
        for f in files:
            w = window_of(e, stalat, stalon, Request_window)[0]
            st = read(f, starttime=w['eqstart'], endtime=w['eqend'])
            tag(st, w['onset'])
            out += st
    out.write(filename)


def contained_by_file(files, events, stalat, stalon, Request_window, filename):
    out = Stream()
    for f in files:
        whole = read(f)
        for e in events:
            w = window_of(e, stalat, stalon, Request_window)[0]
            if w['eqstart'] >= whole[0].stats.starttime and w['eqend'] <= whole[0].stats.endtime:
                st = read(f, starttime=w['eqstart'], endtime=w['eqend'])
                tag(st, w['onset'])
                out += st
    out.write(filename)


def contained_by_event(files, events, stalat, stalon, Request_window, filename):
    out = Stream()
    for e in events:
        for f in files:
            whole = read(f)
            w = window_of(e, stalat, stalon, Request_window)[0]
            if w['eqstart'] >= whole[0].stats.starttime and w['eqend'] <= whole[0].stats.endtime:
                st = read(f, starttime=w['eqstart'], endtime=w['eqend'])
                tag(st, w['onset'])
                out += st
    out.write(filename)


def sorted_files(datapath):
    return sorted(glob('%s*' % datapath))


def found_files(datapath):
    return glob('%s*' % datapath)


def events_of(catalogfile):
    return read_events(catalogfile)

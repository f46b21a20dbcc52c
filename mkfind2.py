PROPS.update({
 "tables of different lengths": "P08", "a crash or full disk": "P08",
 "modified light does not": "P08", "a loaded table that": "P08",
 "a copy of a table attribute": "P09", "exported methods pass": "P09",
 "an export keeps its own": "P09", "hiding a part that was": "P09",
 "exported fields match": "P09",
})
PROPS.update({
 "a proxy follows fields": "P10", "a proxy passes on": "P10",
 "a websocket client is Ready": "P10", "requests made of a websocket": "P10",
 "websocket responses are sent": "P11", "proxies follow the server": "P10",
 "a proxy follows changes": "P10", "a websocket client that is disabled": "P10",
 "an error from a REST": "P11", "PandA tables keep": "P12",
 "a label that the PandA": "P12", "resetting a PandA": "P13",
 "setting the bits": "P12", "text from a PandA": "P12",
})
PROPS.update({
 "an operation that is overtaken": "P05",
 "an optional CA action": "P14", "a table of waveform": "P14", "an optional PV": "P14",
 "the readback of a caput": "P14", "a Block disabled while its PVs": "P14",
 "a Block that may not be published": "P15", "stopping a process": "P15",
 "a Block added while": "P15", "breakpoints of a scan": "P16",
 "a scan can be paused while": "P16", "a detector with many frames": "P16",
 "a scan fails when a Block": "P16", "a scan can be aborted while": "P16",
})
PROPS.update({
 "no endless row": "P18", "no undefined positions": "P17", "turn around between": "P18",
 "axes that take the same": "P17", "know the last point": "P18",
 "no trigger for a row": "P18", "time turnarounds by": "P18",
})
PROPS.update({
 "turn around from the speed": "P17", "start the run-up of all": "P18",
 "an axis can scan at exactly": "P17", "guess the duration of": "P17",
})

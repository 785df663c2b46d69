#!/usr/bin/env python3
"""Write known_findings.json: (property, subject of the fix commit, what failed)."""
import json, subprocess
FIXED = [
 ("M02", "do not merge empty snapshots", "a cumulative histogram dropped to scale 0 or lower resolution after an idle collection"),
 ("M13", "apply an instrument hint to every matching view", "only the first of several matching views honoured a hint"),
 ("M11", "honor drop aggregation from defaults and hints", "an instrument whose default or hinted aggregation is drop was emitted when a view matched it"),
 ("M13", "resolve the hinted sum aggregation", "a hint naming the sum aggregation made an instrument with no usable aggregator"),
 ("M11", "do not register a synchronous instrument that every reader drops", "collection panicked with a nil accumulator for an instrument dropped by every reader"),
 ("M11", "do not count measurements twice when two views have identical behavior", "two views with identical behaviour doubled every measurement of the instrument"),
 ("M07", "do not truncate the caller's attributes in place", "the caller's attribute slice was modified when an attribute exceeded the size limit"),
 ("M04", "do not report a zero for a cumulative gauge that has no value yet", "a cumulative gauge reported an invented zero when collected between creation and first store of a set"),
 ("M04", "take the gauge sequence number under the lock", "a gauge could report an overwritten older value"),
 ("M06", "synchronize Unregister", "Unregister raced with collection and registration"),
 ("M05", "make collections by one reader exclusive", "concurrent collections of one reader corrupted asynchronous and temporal state"),
 ("M08", "enforce the instrument cardinality limit when inserting a record", "concurrent first measurements exceeded the instrument cardinality limit"),
 ("M15", "do not collect or export from a periodic reader after Shutdown", "a flush after Shutdown collected and exported again"),
 ("M18", "take the lock when reading an instrument's descriptor", "data race between collection and creation of an equal instrument with a longer description"),
 ("E01", "do not panic when exporting an attribute that has no value", "exporting a point with a valueless attribute panicked"),
 ("E01", "export the min and max of an integer MinMaxSumCount", "min and max of an integer min-max-sum-count arrived as reinterpreted bits"),
 ("E01", "convert negative integers in Number.CoerceToFloat64", "a negative integer sum/min/max of a distribution arrived as a huge positive number"),
 ("E02", "export spans under their own resource and scope", "spans of a batch arrived under the first span's resource and with another scope's version; an empty scope name panicked"),
 ("E03", "convert histograms of any scale and sign", "Prometheus buckets of a histogram at scale 0 or below, or with negative or tiny values, were wrong"),
 ("L06", "disable metrics when the metric endpoint is empty", "an empty metric endpoint, documented as disabling metrics, was a setup error"),
 ("I01", "do not share the sample buffer between readers", "concurrent readers of runtime metrics overwrote each other's samples and reported torn readings"),
 ("I03", "do not count guest CPU time twice", "system.cpu.time counted guest time as user and as other"),
 ("M08", "count colliding attribute sets against the instrument cardinality limit", "attribute sets whose fingerprints collide (permutations of one slice value) were tracked without limit"),
 ("L07", "stop the trace pipeline's exporter when its propagators are refused", "a trace pipeline refused for its propagators left its span processor and exporter running"),
 ("M17", "configure histograms whose memory is re-used", "a histogram collected into memory of a differently configured one got that one's maximum size, in the output and for its later measurements"),
 ("M02", "keep the resolution of a histogram when merging zeros", "a histogram dropped to scale 0 when an interval held only zeros"),
 ("M08", "keep the overflow attribute set apart under a view's key filter", "with a key filter, measurements beyond the instrument's limit were reported under an unrelated attribute set"),
 ("M08", "keep one record for an attribute set measured in several orders", "attribute sets measured in several argument orders took several places under the limit and overflowed though tracked"),
 ("M11", "apply the default configuration where a view clause sets none", "a view that sets no configuration (a mere rename) replaced the default selector's or the hint's histogram size and limit with the library's"),
 ("E02", "do not reorder the attributes of exported spans", "attribute slices of exported spans were sorted in place, racing with other processors"),
 ("M15", "collect nothing for an export that shutdown has already canceled", "measurements made while an export was in progress were collected for, and lost with, a second export that shutdown had already canceled (both the tick and the cancellation being ready, in half of the cases the tick was taken)"),
]
# (property, regular expression that matches exactly this failure, what fails)
KNOWN = [
 ("M02", "recording a value next to a power of two panics in go-expohisto: downscale logic error",
  "Record panics in the caller with default settings when one Float64Histogram receives the values just below 2^-841 and just below 2^-1000 (as with other pairs just below powers of two that just fill the histogram): go-expohisto v1.0.0 computes the change of scale from an index its logarithmic mapping rounded up, and gives up when one such change is not enough. The defect is in a dependency, which this repository cannot repair"),
 ("M08", "delta overflow counts again what was reported before",
  "attribute sets of an asynchronous counter beyond the cardinality limit are reported to a delta reader with their full values in every collection, not the differences (statefulAsyncInstrument.Collect carries the overflow total over and adds the new observations to it; TestInstrumentOverflowCombined requires this for sets that are new each time)"),
 ("M05", "delta after a gap counts again what was reported before it",
  "an asynchronous counter's attribute set that goes unobserved for a collection and then returns is reported to a delta reader with its full value, not the difference (statefulAsyncInstrument.Collect forgets the prior value; TODO there)"),
]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
out, used = [], set()
for prop, subj, what in FIXED:
    h = [(c, s) for c, s in log if s.startswith("fix: " + subj)]
    assert len(h) == 1, subj
    used.add(h[0][0])
    out.append(dict(property=prop, status="fixed", commit=h[0][0], what="fixed: property=%s %s %s" % (prop, h[0][0], what)))
left = [l for l in log if l[1].startswith("fix:") and l[0] not in used]
assert not left, left
for prop, match, what in KNOWN:
    out.append(dict(property=prop, status="known", match=match, what=what))
json.dump({"findings": out}, open("/verif/known_findings.json", "w"), indent=1)
print(len(out), "findings")

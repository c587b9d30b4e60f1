"""Checks beyond the single-driver ones."""
import runner, build

def harness(driver, rule, assumptions=(), timeout=800, variant="asan"):
    def run(res):
        exe = build.build(variant, [driver])[driver]
        res.rule = rule
        res.assumptions = list(assumptions)
        runner.run_harness(res, exe, res.prop, timeout=timeout)
    return run

UT = "Each call of the real helper on generated, boundary or mutated input in exact-size heap buffers (ASan+UBSan) is judged against a reference written for this check. Distinct = distinct input."
CHECKS = {p: harness("utils", UT) for p in ("U01", "U02", "U03", "U04")}
CHECKS["U05"] = (harness("files", "The real helpers work on files, directories and mappings in a scratch directory (ASan+UBSan, reads, closes, mkdir and readdir also made to fail); every answer and every effect is compared with what plain system calls show; open descriptors and mappings are counted. Distinct = distinct content, shape or fault."), "fault_enumeration")
import cdoc
CHECKS.update(cdoc.CHECKS)
import w08
CHECKS.update(w08.CHECKS)

RT = "Files are written by the real creator and packer from generated typed trees; the real reader opens them from exact-size heap memory under ASan+UBSan and every answer is compared with the generated tree. "
CHECKS["R01"] = harness("reader", RT + "Evaluation = one lookup judged; distinct = distinct file.")
CHECKS["R02"] = harness("reader", RT + "Evaluation = one accessor call judged; distinct = distinct tree.")
CHECKS["R03"] = harness("reader", "Damaged files are opened, walked with every accessor and exported by the real reader; the file lives in exact-size heap memory, so ASan sees every access outside it; a watchdog decides about hangs. Evaluation = one damaged file or one monitor of it; distinct = distinct damaged file.", ["a file that refers many times to the same content describes an exponentially big document: the walk and the export of such a file are cut off, opening it is not"])
CHECKS["R04"] = (harness("reader", "Records are appended by the real creator; a reader opens every prefix of the growing file (and the file of a writer killed at any time or stopped by a file size limit) and every visible record is compared with the source. Evaluation = one opened prefix judged; distinct = distinct prefix."), "fault_enumeration")

BW = "The real plugin (ASan+UBSan, file mapped from a scratch directory) performs random operations that a plain tree model performs too; ring links, numbers, names, types, values, places and overlaps of everything in the document are compared. "
for _p in ("W01", "W02", "W03", "W06", "W07", "W09"):
    CHECKS[_p] = harness("xbw", BW + "Evaluation = one comparison or query; distinct = distinct history.")
CHECKS["W10"] = (harness("xbw", "The real plugin builds batches by random edits (model alongside), writes them through the real creator to an open-ended file - also under a file size limit, with a name unknown to the file, and in a process that is killed - and the real reader's view of the file is compared with all batches written so far. Evaluation = one view compared; distinct = distinct history."), "fault_enumeration")
CHECKS["X02"] = harness("resources", "A piece of work (reading, writing, converting, editing, copying, printing, helpers; and work that is refused or fails: malformed sources, damaged and missing files, contradictory dictionaries, results that cannot be written, objects destroyed half way) is done twice to warm up and then 3 or 300 more times in one process; bytes of heap in use, open descriptors and mappings of files must not grow. Evaluation = one comparison of a counter; distinct = distinct work and result.", ["readers are finished by Finalize() as their documentation asks; one conversion per creator"])
CHECKS["X01"] = harness("threads", "Jobs (reading one file each or all the same one, values, helpers, JSON, typed sources, edits with conversion, files, XML) run in 2-8 threads of a fresh process at once, with delays, under ThreadSanitizer, and one after another in another process; a race is a report, and every job's results (texts, hashes, contents) must be the same. Evaluation = one job's result compared; distinct = distinct mixture and documents.", ["the process-wide log of failures is turned off (debug_status=nullptr)", "editable documents are opened and closed by one thread; one XML source at a time; functions returning internal static buffers are not called"], variant="tsan")

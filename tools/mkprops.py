#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","A task never runs on two workers at once, nor before it is due",
 "Whatever the number of worker threads and however they interleave, the processing of one registered task is never executed by two workers at the same time, and is never started before the wait the task asked for at its previous execution has elapsed. A task is executed only after it was enabled: by being registered, by having pending input when an execution of it ended, or by an execution of some task naming it as enabled. Registering a negative id or an id already in use is refused and leaves the tasks already registered undisturbed.",
 ["schedules","programs"],"Every interleaving of 1..n workers, tasks with any waits, any enabling pattern between tasks, and concurrent registration.",
 "The only scheduler test registers and removes mock tasks once and sees one accidental schedule; it never checks overlap or due times.",
 ["src/WorkersPool.cpp","src/WorkersPool.hh","src/Runnable.cpp"],
 [("running flag tested and set under the pool mutex","src/WorkersPool.cpp worker loop"),("due time kept by each task","src/Runnable.cpp runProcessFrame/ready")],
 [("runnables","registered tasks by id","src/WorkersPool.hh"),("queue","tasks to execute, each at most once","src/WorkersPool.hh TaskQueue"),("run","task currently being executed","src/Runnable.hh")],
 ["Runnable::processFrame entry and exit","addTask/removeTask/stop return"])

p("C02","Every enabled task is executed again; no wake-up is lost",
 "Whenever a registered task is enabled (registered, named as enabled by the execution of a task, or left with pending input when its execution ends), it is executed again within a bounded time after its requested wait has elapsed, whichever workers run and however they interleave. In particular, enabling a task while it is being executed leads to one more execution after that one. No worker stays asleep for good while a due task is waiting and a worker is free.",
 ["schedules","programs"],"Every interleaving of 1..n workers and every pattern of enabling, waits and execution lengths.",
 "A lost wake-up needs a task to be enabled while it runs, with other tasks queued behind it; the single-schedule test never produces it and has no notion of progress.",
 ["src/WorkersPool.cpp","src/WorkersPool.hh","src/Runnable.cpp"],
 [("ready task removed from the queue when picked","src/WorkersPool.cpp TaskQueue::pop"),("condition variable notified after every addition","src/WorkersPool.cpp"),("re-enqueued when input is pending","src/WorkersPool.cpp worker loop")],
 [("queue","tasks waiting for execution","src/WorkersPool.hh")],["Runnable::processFrame entry, after virtual time has passed"])

p("C03","A removed or stopped task is never touched again",
 "Once the removal of a task has returned, no worker is executing that task and none will ever execute or access it again, so its owner may destroy it; tasks that remain registered are unaffected and the freed id can be registered again. Once the pool's stop has returned, no task is executing and none will be executed any more. Both calls return as soon as the executions in progress have ended, and removing an unknown id is refused.",
 ["schedules","histories"],"Every interleaving of workers with removal (followed by destruction of the task) and stop, including while the task is queued, running, waiting for its time, or enabled by another task.",
 "The existing test never destroys a removed task nor removes one that is queued or running.",
 ["src/WorkersPool.cpp","src/WorkersPool.hh","src/PipelineManager.cpp"],
 [("removal erases the task and waits for the running execution","src/WorkersPool.cpp removeTask"),("stop joins every worker","src/WorkersPool.cpp stop")],
 [("runnables","registered tasks","src/WorkersPool.hh"),("queue","queued pointers to tasks","src/WorkersPool.hh")],["every access to a task's memory after its destruction"])

p("C04","Frame queues are bounded FIFOs whose only loss is counted",
 "A frame queue gives its consumer the frames in the order they were added, each once, with the content they were added with, and never holds more than its size minus one; adding to a full queue or removing from an empty one changes nothing. A producer is never handed the slot of a frame still queued, nor of the frame last taken, which the consumer can get again, unaltered, while nothing newer is removed. Forcing room in a full queue drops only its newest frame and counts it as lost, and the number of queued frames, the fullness flag (at least 90% of the size) and the ids of the filters to wake always reflect the actual content.",
 ["histories","schedules"],"Every sequence of producer and consumer operations for every queue size, and every interleaving of one producer with one consumer.",
 "The unit test walks three fixed sequences on one queue size, single threaded.",
 ["src/AVFramedQueue.cpp","src/AVFramedQueue.hh","src/FrameQueue.hh"],
 [("ring of frame slots with one slot always free","src/AVFramedQueue.cpp"),("flush of the newest element when forced","src/AVFramedQueue.cpp forceGetRear")],
 [("rear/front","ring indices","src/FrameQueue.hh"),("lostBlocs","counted losses","src/FrameQueue.hh")],["return values of the queue operations"])

p("C05","Sliced video queues deliver every slice once, in order, unaltered",
 "When a coded picture made of slices is added to a sliced queue, its slices come out as separate frames in the order they were put, each with exactly the bytes of the slice and with the picture's timestamps, size, origin time and sequence number. The next picture starts with no slices, a picture accepts at most 16 slices and refuses the rest, and when the queue has no room the newest queued slices are dropped and counted as lost.",
 ["histories","inputs"],"Every sequence of pictures with any number and size of slices, queue sizes, and consumer progress.",
 "The unit test adds two fixed pictures and never fills the ring, wraps it or checks all metadata.",
 ["src/SlicedVideoFrameQueue.cpp","src/VideoFrame.cpp","src/AVFramedQueue.cpp"],
 [("slices copied into ring slots on addition","src/SlicedVideoFrameQueue.cpp pushBackSliceGroup"),("slice table","src/VideoFrame.cpp SlicedVideoFrame")],
 [("inputFrame","picture being assembled","src/SlicedVideoFrameQueue.hh")],["queue operations and the frames they return"])

p("C06","A shared input gives each consumer every frame exactly once",
 "When several filters share one input, each of them is told about every frame taken from the queue as new exactly once and in order, and the frame stays valid and unreplaced until all the filters that share it have released it; only then the queue advances, by exactly one. A filter that joins or leaves, at any moment, neither blocks the others nor makes them miss or repeat a frame, and a filter that is not (or no longer) sharing gets nothing. With an empty queue consumers are told there is nothing new.",
 ["histories","schedules"],"Every history of get, release, join and leave by any number of sharing filters interleaved with additions by the producer.",
 "The reader test has a fixed two-consumer history without departures in the middle of a frame.",
 ["src/IOInterface.cpp","src/IOInterface.hh","src/Filter.cpp"],
 [("per-filter got/released flags","src/IOInterface.cpp Reader::getFrame/removeFrame"),("departure handling","src/IOInterface.cpp Reader::disconnect")],
 [("filters","pending get/release per filter","src/IOInterface.hh")],["Reader::getFrame, removeFrame, disconnect, getQueueElements"])

p("C07","Filter connections are all-or-nothing and released exactly once",
 "Connecting two filters either establishes a link seen as connected from both ends, or fails and leaves both filters as they were, able to connect again; an end already in use, a filter with all its inputs or outputs taken, or a refused configuration makes it fail. Disconnecting either end makes the link unusable for both, frees the end for reuse, and the buffer between them is destroyed exactly once, after both ends have let go. This holds when the filters are processing while the link is made or broken.",
 ["histories","schedules","configurations"],"Every history of connect, share, disconnect, process and destroy over several filters and ids, with failures at every step, and interleaved with running workers.",
 "Unit tests connect fresh filters once per test and never reconnect, fail midway, or run concurrently.",
 ["src/Filter.cpp","src/IOInterface.cpp","src/FrameQueue.hh"],
 [("writer/reader maps with limits","src/Filter.cpp setWriter/setReader"),("two-party release of the queue","src/IOInterface.cpp disconnect")],
 [("connected","link usable","src/FrameQueue.hh"),("readers/writers","ends in use","src/Filter.hh")],["connect*, shareReader, disconnect*, isRConnected, isWConnected, queue constructions and destructions"])

p("C08","Filters process every delivered frame once, in order, with its metadata",
 "A best-effort filter hands to its processing every frame that reaches each of its inputs exactly once and in order, tells apart inputs with new data from those without, and emits exactly the outputs its processing marked as produced, waking exactly the filters that read them. If there is nothing new the processing is not called (a server-role filter is always called) and the filter asks to be retried later. Emitted frames carry correct origin time and sequence number: consecutive numbers for sources and many-to-one filters, those of the input for one-to-many filters.",
 ["histories","programs"],"Every history of input arrivals, output readiness, processing results and periodicity for all filter shapes (one/many inputs and outputs, heads, tails).",
 "Unit tests run single frames through mock filters; frame histories, partial readiness and metadata are not checked.",
 ["src/Filter.cpp","src/Filter.hh","src/Runnable.cpp"],
 [("gather inputs, gather outputs, process, publish, release","src/Filter.cpp regularProcessFrame/serverProcessFrame"),("sequence numbers per writer","src/Filter.cpp runDoProcessFrame")],
 [("seqNums","next sequence number of an output","src/Filter.hh")],["doProcessFrame arguments, values returned by processFrame, frames read downstream"])

p("C09","Frame-time filters advance their clock by whole frames and never process late",
 "A filter with a fixed frame time keeps a current window of one frame time: it processes the inputs whose time falls in the window and then moves the window forward by exactly one frame time. When all the new inputs lie in the future it jumps to the earliest of them; when the only new inputs are in the past they are dropped without being processed and the window does not move. The window never moves backwards.",
 ["histories","inputs"],"Every history of timestamps on any number of inputs and any frame time.",
 "No unit test exercises frame-time mode with more than a constant cadence.",
 ["src/Filter.cpp"],[("window bookkeeping","src/Filter.cpp demandOriginFramesFrameTime")],
 [("syncTs","start of the current window","src/Filter.hh")],["processing calls and window position after each processFrame"])

p("C10","Synchronised sinks consume their inputs in timestamp order",
 "A sink that synchronises its inputs consumes from all of them only when each has data and none lags the most advanced one by more than the 40 ms margin; otherwise it consumes only from the inputs that lag beyond the margin or whose queue is full. When some input is empty the others are held back unless they lag or are full. Frames held back are neither lost nor reordered, and as soon as the missing input produces or a queue fills, consumption resumes.",
 ["histories","inputs"],"Every history of arrivals with any timestamps over several inputs and queue sizes.",
 "The synchronisation of sinks has no unit test.",
 ["src/Filter.cpp","src/IOInterface.cpp"],[("selection of inputs to pass","src/Filter.cpp framesSync"),("oldest unread time","src/IOInterface.cpp getCurrentTime")],
 [("sync","inputs are synchronised","src/Filter.hh")],["inputs handed to the sink's processing at every call"])

p("C11","Events are executed once, when due, in time order, before frames",
 "An event sent to a queued-event filter is executed exactly once, not before its delay has passed since its timestamp, at the first processing at which it is due and heads the queue, and before that processing handles any frame. Pending events are kept in timestamp order, an event not yet due holding back the later ones; events with unknown or empty actions are discarded without affecting the others. Source and sink filters execute events immediately and ignore unknown actions.",
 ["histories","inputs"],"Every set of events with any timestamps, delays, actions and arrival order interleaved with processing.",
 "Unit tests never queue more than one event or use delays.",
 ["src/Filter.cpp","src/Event.cpp"],[("priority queue by timestamp","src/Filter.cpp processEvent/newEvent"),("due test","src/Event.cpp canBeExecuted")],
 [("eventQueue","pending events","src/Filter.hh")],["calls of the registered event handlers"])

p("C12","The pipeline graph stays consistent under any sequence of commands",
 "Creating a filter or path with an id in use, an unknown type or invalid filters is refused without changing the graph, and a created path connects its filters end to end in order. A filter used by a path cannot be removed; removing a path disconnects it and removes its intermediate filters and those end filters no other path uses, leaving every other filter and path intact and working. After stop no filter, path or link remains, everything created was destroyed exactly once, and the manager can be used again.",
 ["histories","configurations","schedules"],"Every sequence of filter and path creation and removal, grouping several paths on one output, and stop, valid or not, with workers running.",
 "The pipeline tests do not build here and only cover one path; nothing checks arbitrary command histories.",
 ["src/PipelineManager.cpp","src/Path.cpp","src/Filter.cpp","src/WorkersPool.cpp"],
 [("validation of paths","src/PipelineManager.cpp createPath/connectPath"),("ownership by paths","src/PipelineManager.cpp deletePath/removeFilter")],
 [("filters","filters by id","src/PipelineManager.hh"),("paths","paths by id","src/PipelineManager.hh")],["return values, getFilter/getPath, filter destructions"])

p("C13","The audio buffer outputs a gapless, correctly timestamped stream",
 "The samples read from an audio buffer are exactly the samples written, in order and on every channel, with silence exactly where the input timestamps left a gap, cut in frames of the configured length; each output frame's timestamp is the start time of the stream plus the duration of the samples already output. Input older than the expected time by more than the tolerance (64 samples), or that does not fit, is discarded whole without disturbing what is buffered; a gap as long as the buffer restarts the stream at the next input. A frame is given again, unchanged, until it is released, and the count of available frames always reflects the buffered samples.",
 ["histories","inputs","schedules"],"Every sequence of input frames (any lengths and timestamps, formats and rates), reads and releases, and every interleaving of writer and reader.",
 "Unit tests check one gap, one overlap and one flush with fixed numbers; data, wrap-around and concurrency are not covered.",
 ["src/AudioCircularBuffer.cpp","src/AudioFrame.cpp"],[("position kept in samples since synchronisation","src/AudioCircularBuffer.cpp addFrame/getFront"),("ring copies","src/AudioCircularBuffer.cpp pushBack/popFront")],
 [("elements","buffered bytes per channel","src/AudioCircularBuffer.hh"),("syncTimestamp","stream start","src/AudioCircularBuffer.hh")],["frames returned by getFront, getElements, getFreeSamples"])

p("C14","The audio mixer outputs the gain-weighted sum of its inputs, aligned in time",
 "Every output frame of the audio mixer is, sample by sample, the sum of the samples of all inputs for that instant, each scaled by its channel gain and the master gain (added one after the other, and compressed beyond the threshold each time), with silence where no input has samples; output frames are contiguous in time and one is emitted as soon as three frames of input are buffered. Channel gains set by events are limited to 0..1, muting or soloing affects exactly the channels meant, and unknown channels are refused. Input frames that start in the past, or for which there is no room, do not alter the output, and an input beyond the buffer restarts the mix at its time.",
 ["histories","inputs"],"Every history of frames with any timestamps on several channels interleaved with gain, mute and solo events.",
 "The functional test mixes two synchronous constant inputs with default gains.",
 ["src/modules/audioMixer/AudioMixer.cpp"],[("mix ring indexed by absolute sample position","src/modules/audioMixer/AudioMixer.cpp pushToBuffer/extractMixedFrame"),("gain table","src/modules/audioMixer/AudioMixer.cpp setChannelGain")],
 [("front/rear","mixed and pending positions","src/modules/audioMixer/AudioMixer.hh"),("gains","channel gains","src/modules/audioMixer/AudioMixer.hh")],["output frames and getState"])

p("C15","DASH video segments are decodable, contiguous and lose no picture",
 "Every video segment written starts with an intra picture and contains, in order and byte for byte, all the pictures received from that one until the next segment's first picture, so that no picture between the first intra picture and the last finished segment is lost or duplicated. The segment's start time, sequence number, sample sizes, durations, sync flags and index are consistent with those pictures and each segment starts where the previous one ended. A segment ends only at an intra picture: at the first one at which what it holds, its last picture counted twice, reaches the configured duration. Pictures dated before the start of the session (the time of the first frame received) are discarded. This is for non-decreasing decode times, presentation times not before decode times, segments below the size of the buffers (10 MB) and representations none of which lags a whole segment behind another.",
 ["histories","inputs"],"Every sequence of pictures (any sizes, intra patterns, frame rates, timestamps, offsets) and segment durations.",
 "Unit tests compare one recorded stream, with one duration, against golden files.",
 ["src/modules/dasher/DashVideoSegmenter.cpp","src/modules/dasher/i2libdash.c","src/modules/dasher/i2libisoff.c","src/modules/dasher/Dasher.cpp"],
 [("sample accumulation and cut at intra","src/modules/dasher/i2libdash.c add_video_sample/generate_video_segment"),("box writers","src/modules/dasher/i2libisoff.c")],
 [("ctxvideo","pending samples and their times","src/modules/dasher/i2context.h")],["bytes of the segments (parsed as ISO BMFF), their timestamps and durations"])

p("C16","DASH audio segments carry every audio frame once, aligned with video",
 "Audio segments contain every audio frame received, in order, stripped of its ADTS header and otherwise unaltered, exactly once; their start times and durations follow the frames' timestamps so that consecutive segments are contiguous. Without video a segment ends as soon as it reaches the configured duration; with video it ends when the video segment ends, so both streams cover the same time. Several audio readers, of the same rate and fed together, each get their own segments.",
 ["histories","inputs"],"Every sequence of audio frames (sizes, sample rates, timestamps) with and without video, and segment durations.",
 "Unit tests compare one recorded stream against golden files and never combine audio with video.",
 ["src/modules/dasher/DashAudioSegmenter.cpp","src/modules/dasher/i2libdash.c","src/modules/dasher/Dasher.cpp"],
 [("sample accumulation and forced cut","src/modules/dasher/i2libdash.c add_audio_sample/generate_audio_segment"),("forced generation with video","src/modules/dasher/Dasher.cpp forceAudioSegmentsGeneration")],
 [("ctxaudio","pending samples","src/modules/dasher/i2context.h")],["bytes of the segments (parsed as ISO BMFF)"])

p("C17","The DASH manifest lists exactly the segments kept on disk",
 "After every update, for each media type the manifest lists the most recent segments, in order, contiguous in number up to the configured maximum (never less than two), and each listed segment exists on disk, with the listed start time and duration, for every listed representation that had begun by then. Finished segments are not held back for representations that have not begun theirs. Segments that leave the window are deleted from disk, whatever their start time, and none that is listed is deleted. Representations appear with their current parameters when they have produced a segment and disappear, alone, when their input is removed.",
 ["histories","configurations"],"Every history of segment completions over several audio and video representations, window sizes, reconfigurations and input removals.",
 "Unit tests update the manifest a few times in memory and never look at the folder.",
 ["src/modules/dasher/Dasher.cpp","src/modules/dasher/MpdManager.cpp"],
 [("sliding window of timestamps","src/modules/dasher/MpdManager.cpp updateTimestamp"),("cleaning of old segments","src/modules/dasher/Dasher.cpp cleanSegments")],
 [("timestamps","window of listed segments","src/modules/dasher/MpdManager.hh")],["manifest XML and files in the output folder"])

p("C18","Coded pictures and codec headers are reassembled exactly from NAL units",
 "The video segmenters group the slices of each picture, in order, as length-prefixed units equal to the received NAL units without their start codes, and hand a picture over exactly when the next access unit begins, with its own timestamps and size and flagged intra exactly if its slices are intra. Parameter sets are never put in pictures; whenever a complete new group of parameter sets has arrived, the next initialisation segment carries exactly those. Delimiters, parameter sets, supplemental data and unknown or empty units never lose, split or duplicate a picture.",
 ["histories","inputs"],"Every sequence of NAL units (types, start code lengths, sizes, timestamps) for H.264 and H.265, and ADTS headers for AAC.",
 "Unit tests feed one unit of each kind and check whether a frame is returned.",
 ["src/modules/dasher/DashVideoSegmenterAVC.cpp","src/modules/dasher/DashVideoSegmenterHEVC.cpp","src/modules/dasher/DashVideoSegmenter.cpp","src/modules/dasher/DashAudioSegmenter.cpp"],
 [("NAL classification and accumulation","src/modules/dasher/DashVideoSegmenterAVC.cpp parseNal"),("codec configuration records","createExtradata / updateExtradata")],
 [("tmpFrame/vFrame","picture being assembled / handed over","src/modules/dasher/DashVideoSegmenterAVC.hh")],["frames returned by manageFrame, intra flag, init segment bytes"])

p("C19","The shared-memory sink never overwrites unread data",
 "The shared-memory filter writes a frame only when the region is marked writable, writes complete data and header (sequence, format, size, time, length) before marking it readable, and touches nothing while it is marked readable, so an external reader that follows the protocol sees only complete, uncorrupted frames in increasing sequence. Every input frame is forwarded downstream unaltered whether or not it could be shared. Coded pictures are shared whole: all the units of a picture, in order, and only once the next picture starts.",
 ["histories","schedules","inputs"],"Every history of input frames interleaved with any timing of the external reader.",
 "The test writes one frame sequence with a cooperative reader in the same thread.",
 ["src/modules/sharedMemory/SharedMemory.cpp","src/modules/sharedMemory/SharedMemory.hh"],
 [("sync byte handshake","src/modules/sharedMemory/SharedMemory.cpp isWritable/writeSharedMemory"),("access unit accumulation","src/modules/sharedMemory/SharedMemory.cpp parseNal")],
 [("shared region","sync byte, header, payload","src/modules/sharedMemory/SharedMemory.hh")],["bytes of the shared memory segment and the output frame"])

p("C20","The video mixer composes exactly the configured, enabled layers",
 "Each output picture of the video mixer shows every connected and enabled input scaled to its configured rectangle, painted in increasing layer order with its opacity, and black elsewhere; disabled channels are never shown. A channel configuration is accepted exactly when the channel exists and position, size, opacity and layer are in range, takes effect only on that channel, and a refused one changes nothing. No accepted configuration makes the mixer fail, and the output time never precedes the inputs it shows.",
 ["histories","configurations"],"Every history of channel configurations, inputs of any size, connections and removals.",
 "Unit tests accept or refuse a few configurations and compare two fixed compositions.",
 ["src/modules/videoMixer/VideoMixer.cpp"],[("layer loop and paste","src/modules/videoMixer/VideoMixer.cpp doProcessFrame/pasteToLayout"),("configuration validation","src/modules/videoMixer/VideoMixer.cpp configChannel0")],
 [("channelsConfig","per-channel configuration","src/modules/videoMixer/VideoMixer.hh")],["output pixels at sampled positions, getState"])

p("C21","The video splitter outputs exactly the configured crop of each output",
 "Each output of the video splitter carries exactly the pixels of its configured rectangle of the input picture, with the input's timestamps, origin time and sequence number. A crop is accepted exactly when its output exists and the rectangle is in range, takes effect only on that output, and a refused one changes nothing. An output whose crop is unset or outside the picture emits nothing without affecting the others.",
 ["histories","configurations"],"Every history of crop configurations, input sizes, and outputs connected or removed.",
 "Unit tests accept or refuse a few crops and compare one fixed split.",
 ["src/modules/videoSplitter/VideoSplitter.cpp"],[("crop per writer","src/modules/videoSplitter/VideoSplitter.cpp doProcessFrame"),("validation","src/modules/videoSplitter/VideoSplitter.cpp configCrop0")],
 [("cropsConfig","per-output crop","src/modules/videoSplitter/VideoSplitter.hh")],["output pixels and metadata"])

p("C22","Encoded pictures keep the identity of the picture they encode",
 "Every coded picture leaving the video encoder carries the presentation time, origin time and sequence number of the input picture it encodes, even when the encoder delays or reorders pictures, shows the content of that picture once decoded, and each input produces at most one coded picture. Its decode time is never later than its presentation time, nor goes back while the encoder keeps its configuration. When a group time is configured, the first picture at or after each point of the grid of group times that starts at the reference time is coded as intra, once; an intra request makes the next picture intra. A reconfiguration is accepted exactly when its parameters are valid, takes effect from the next picture (pictures still in the encoder may then be lost), and a refused one leaves the encoder as it was.",
 ["histories","configurations","inputs"],"Every history of input pictures, encoder delays and reorderings, and configuration or intra-refresh events.",
 "The encoder has no stable unit test here.",
 ["src/modules/videoEncoder/VideoEncoderX264or5.cpp","src/modules/videoEncoder/VideoEncoderX264.cpp"],
 [("pending pictures by encoder timestamp","src/modules/videoEncoder/VideoEncoderX264or5.cpp"),("validated configuration","configure0")],
 [("qFT","pictures in the encoder","src/modules/videoEncoder/VideoEncoderX264or5.hh")],["slices and metadata of the output frames"])

p("C23","Control requests get one answer and never half-apply an invalid command",
 "Every control request gets exactly one reply: an error for malformed requests or commands, or the result of its commands, which are executed in the order given. A command with missing or ill-typed parameters, an unknown action, or an unknown filter is answered with an error and changes nothing. A state request reports exactly the existing filters and paths.",
 ["histories","inputs"],"Every sequence of requests, valid or malformed, over any state of the graph.",
 "The control protocol has no test that builds here.",
 ["src/Controller.cpp","src/PipelineManager.cpp"],[("dispatch of events","src/PipelineManager.cpp processEvent"),("request parsing and reply","src/Controller.cpp processRequest")],
 [("filters/paths","graph","src/PipelineManager.hh")],["JSON replies"])

p("C24","Frames cross a whole running pipeline intact, ordered and without stalls",
 "In a running pipeline of sources, processing filters and sinks on any number of workers, every frame a filter outputs, unless it is counted as lost because its queue was full, reaches every filter connected to that output exactly once, in order, complete and unaltered while it is being read (a processing filter with no connected output discards its input; one that joins an output starts at one of the frames still queued and misses none after it). Only the newest frame of a full queue is ever discarded, and each discard is counted. The pipeline keeps flowing: whenever a filter has a frame to process, it is run within a time bounded by the work of the others, so when the sources pause everything queued is delivered, also right after paths change. Paths added, grouped or removed while it runs do not disturb the others, nor crash or deadlock it, and nothing is left behind when it ends.",
 ["schedules","histories"],"Every interleaving of 1..n workers with the control thread over chains, fan-outs and fan-ins of filters with small queues.",
 "Functional tests run filters by hand in one thread; the pool, queues, readers and manager are never exercised together.",
 ["src/Filter.cpp","src/IOInterface.cpp","src/WorkersPool.cpp","src/AVFramedQueue.cpp","src/PipelineManager.cpp"],
 [("wake-up of readers by writers","src/Filter.cpp addFrames"),("re-execution while input is pending","src/Filter.cpp pendingJobs")],
 [("queues between filters","frames in flight","src/FrameQueue.hh")],["frames seen by the sinks"])

p("C25","The video resampler outputs every picture in the configured size and pixel format",
 "Every picture that enters the video resampler leaves it once, in order, with the configured width and height (those of the input where 0 is configured) and pixel format (RGB24 until one is configured), its length being that of the picture, showing the content of the input picture, and with its presentation, decode and origin time and its sequence number; when size and format do not change, its bytes are those of the input. A configuration is accepted exactly when its size is not negative and its pixel format is supported, whether given directly or as an event that sets only some parameters (the others keep their values), and takes effect from the next picture; a refused one changes nothing. A picture of unknown format, or that does not fit the output frame, is dropped without harming the following ones, and nothing is ever written past a frame or kept from earlier configurations.",
 ["histories","configurations","inputs"],"Every history of configurations and of input sizes and pixel formats, with output frames of any capacity.",
 "The resampler has no test.",
 ["src/modules/videoResampler/VideoResampler.cpp"],[("conversion context per input and configuration","src/modules/videoResampler/VideoResampler.cpp reconfigure"),("output length and metadata","src/modules/videoResampler/VideoResampler.cpp doProcessFrame"),("validation","src/modules/videoResampler/VideoResampler.cpp configure0")],
 [("outputWidth, outputHeight, outPixFmt","configuration","src/modules/videoResampler/VideoResampler.hh")],["output pictures and metadata"])

p("C26","The camera capture outputs every picture of its device whole, and keeps no device that is not capturing",
 "Configuring the camera capture, directly or by an event, either succeeds, with the requested device capturing in the size, format and rate that the device granted and nothing kept of the device used before, or fails with every device closed, unmapped and stopped: whichever call to the device fails or is interrupted, and whatever the device answers. An event with missing or ill-typed parameters, or with sizes or a rate that are not positive, changes nothing. Releasing always closes the device, even one that cannot be stopped. While it captures, every picture that the device filled is output once, in order, with its bytes, length, size, pixel format and time, unless it does not fit the output frame, and its buffer goes back to the device; no picture is output otherwise, and a run waits for the device at most the time of a picture. The state reported is that of the device. A configuration that arrives while a picture is being read takes effect after it.",
 ["histories","faults","configurations","schedules"],"Every history of configurations, releases, pictures and runs over devices that refuse, fail at any call, or answer something else than what was asked.",
 "The capture needs a camera: it has no test.",
 ["src/modules/V4LCapture/V4LCapture.cpp"],[("device states","src/modules/V4LCapture/V4LCapture.cpp configure, releaseDevice"),("copy of a picture","src/modules/V4LCapture/V4LCapture.cpp readFrame"),("granted format and rate","src/modules/V4LCapture/V4LCapture.cpp initDevice")],
 [("status, fd, buffers","device held","src/modules/V4LCapture/V4LCapture.hh")],["output pictures","open descriptors and mappings of the devices","reported state"])

open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

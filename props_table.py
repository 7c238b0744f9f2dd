p("C01", "Integer parameters accept exactly their range and read back what was set",
  "An integer parameter accepts a value, as text in decimal or hexadecimal, in real or raw value space, or through the signed and unsigned integer calls, if and only if the value lies within the parameter's declared bounds and size. An accepted value is what every later read returns, in every notation and type that can express it. A refused value is reported as a failure and leaves the parameter and its neighbours unchanged.",
  ["inputs", "configurations"], "every value (32-bit arguments, decimal and hexadecimal texts), for sizes 8, 16, 32 of both signs and any declared bounds",
  "The test suite checks a handful of values around the bounds of a few declared parameters; sign extension, width masking and comparison at every width and bound are not enumerable.",
  ["parameter/IntegerParameterType.h", "parameter/ParameterType.cpp", "parameter/Parameter.cpp", "parameter/ElementHandle.cpp", "parameter/ParameterBlackboard.cpp"],
  [("text and typed conversions with range check", "IntegerParameterType.h toBlackboard/fromBlackboard/checkValueAgainstRange"), ("sign extension and width masking", "ParameterType.cpp signExtend/makeEncodable"), ("little endian store of the declared width", "ParameterBlackboard.cpp writeInteger/readInteger")])
p("C02", "Enumerations accept exactly their declared entries and name what they hold",
  "An enumeration parameter accepts a literal or a number if and only if it is one of the declared entries and fits the declared size. After an accepted write, reads return the entry's literal in real space and its number in raw space or through the integer calls. Any other text, number or access type is refused and leaves the parameter unchanged.",
  ["inputs", "configurations"], "every 32-bit number, decimal and hexadecimal text and literal, over enumerations with negative, extreme and out-of-size entries in sizes 8, 16, 32",
  "Tests use one or two enumerations with small positive entries; the interplay of negative entries, size and raw notation is unbounded.",
  ["parameter/EnumParameterType.cpp", "parameter/EnumValuePair.cpp", "parameter/ParameterType.cpp"],
  [("literal and numeric lookups", "EnumParameterType.cpp getLiteral/getNumerical/isValid"), ("raw and size check", "EnumParameterType.cpp toBlackboard")])
p("C03", "Fixed-point parameters store the nearest representable value within range",
  "A fixed-point parameter accepts a real number, as text or double, if and only if it lies within the range its integral and fractional widths can represent; the value then read differs from it by less than one quantum. Reading a stored value and writing the result back restores the same stored bits, in real and in raw notation. A value outside the range is refused and changes nothing.",
  ["inputs", "configurations"], "every finite double and its text, every raw decimal and hexadecimal pattern, for several integral/fractional/size layouts",
  "Tests try a few values of a few layouts; rounding and saturation depend on all bits of the number and on the layout.",
  ["parameter/FixedPointParameterType.cpp", "parameter/ParameterType.cpp"],
  [("range check against the layout", "FixedPointParameterType.cpp checkValueAgainstRange/getRange"), ("quantisation", "FixedPointParameterType.cpp asInteger/binaryQnmToDouble")])
p("C04", "Floating-point parameters honour their bounds; raw form keeps exact bits",
  "A floating-point parameter accepts a number, as text, double or raw bit pattern, if and only if it is a number within the declared bounds; the stored value is that number rounded to single precision. The typed read returns the stored value, and raw notations read and write its exact bit pattern. Anything else, not-a-number included, is refused and changes nothing.",
  ["inputs", "configurations"], "every double, every 32-bit pattern in decimal and hexadecimal notation, over four kinds of declared bounds",
  "Tests use a few ordinary numbers; NaN, infinities, denormals, negative zero and values that round onto a bound are in the quantifier.",
  ["parameter/FloatingPointParameterType.cpp", "utility/convert.hpp"],
  [("range check", "FloatingPointParameterType.cpp checkValueAgainstRange"), ("bit-exact raw notation", "FloatingPointParameterType.cpp toBlackboard/fromBlackboard")])
p("C05", "Booleans take only truth values and strings keep their exact content",
  "A boolean parameter accepts exactly the textual, raw and numeric forms of true and false. A string parameter accepts every text up to its declared maximum length and returns it byte for byte; longer texts and other access types are refused. A refused access leaves the parameter and its neighbours unchanged.",
  ["inputs"], "every 32-bit integer argument and every string (any non-NUL bytes) up to two bytes beyond the maximum length",
  "Tests use a couple of literals; content and length are unbounded.",
  ["parameter/BooleanParameterType.cpp", "parameter/StringParameter.cpp", "parameter/StringParameterType.cpp", "parameter/ParameterBlackboard.cpp"],
  [("boolean conversions", "BooleanParameterType.cpp toBlackboard/fromBlackboard"), ("length check and NUL-terminated store", "StringParameter.cpp doSetValue/doGetValue, ParameterBlackboard.cpp writeString/readString")])
p("C06", "Bit fields of one block never disturb each other",
  "Writing a bit field, by text, integer or boolean, is accepted if and only if the value lies between zero and the field's declared maximum. An accepted value is what the field reads back, and all other bits of the block keep their value. A refused write changes no bit.",
  ["inputs", "configurations"], "every value and every previous content of the block, every position and width of a field in an 8-bit block, fixed layouts in 16 and 64-bit blocks",
  "Tests use one layout and a few values; masks and shifts must be right for every position, width and neighbouring content.",
  ["parameter/BitParameterType.cpp", "parameter/BitParameter.cpp", "parameter/BitParameterBlock.cpp"],
  [("masking and shifting", "BitParameterType.cpp getMask/toBlackboard/fromBlackboard"), ("read-modify-write of the block", "BitParameter.cpp doSetValue/doSet")])
p("C07", "Array parameters: element access, bounds and all-or-nothing writes",
  "An array parameter can be read whole or one element at a time, and written from any valid index with at most the remaining number of values, or by a typed array of exactly its length. A write is accepted if and only if every value is valid for the element type and fits; then exactly the addressed elements change. Otherwise, and for any invalid index, nothing changes at all.",
  ["inputs"], "up to one value too many, from every start index and one past the end, with all separators, every element value in and around the valid range; all typed array calls of every length around the declared one",
  "Tests use whole-array writes of valid values and a few errors; which element fails and where the write starts are unbounded combinations.",
  ["parameter/ArrayParameter.cpp", "parameter/ElementHandle.cpp", "utility/Tokenizer.cpp"],
  [("index parsing and bounds", "ArrayParameter.cpp getIndex"), ("sequential write with restore on failure", "ArrayParameter.cpp setValues"), ("type and length check of typed access", "ElementHandle.cpp checkSetValidity")])
p("C08", "Adaptations convert client values and stored values both ways and keep ranges",
  "An integer parameter with a linear or logarithmic adaptation stores for a client value the nearest integer of slope * value + offset (of the value's logarithm for the latter, or the declared floor if that is below it), if and only if that lies in the parameter's range; other values, infinities and not-a-number included, are refused and change nothing. Reading gives the inverse, and setting what was read stores the same integer again. Accesses by integer or text are not adapted.",
  ["inputs", "configurations"], "every stored value and every double, over twelve adaptations of 8, 16 and 32 bit parameters and arrays",
  "Tests set three values through one division by ten; a value that loses one unit in the way back, or a huge one that wraps into the range, needs particular slopes and values.",
  ["parameter/ParameterAdaptation.cpp", "parameter/LinearParameterAdaptation.cpp", "parameter/LogarithmicParameterAdaptation.cpp", "parameter/IntegerParameterType.h"],
  [("formula and inverse", "LinearParameterAdaptation.cpp, LogarithmicParameterAdaptation.cpp fromUserValue/toUserValue"), ("range check of the converted value", "IntegerParameterType.h toBlackboard(double)")],
  "doc/requirements asks for a bijection: a client gets back the value it set.")
p("C12", "Selection criterion types and states mean exactly what the client declared",
  "A value pair is accepted by a criterion type if and only if its name and number are new and, for an inclusive type, the number is a single bit; names and numbers then map to each other exactly as declared. The state a client sets is the state it reads, for any 32-bit number. A state is formatted as its declared literals, and a combination of literals of an inclusive type stands for the union of their values.",
  ["inputs", "history"], "any sequence of up to three value pairs with any 32-bit numbers and names possibly repeated, every query, every state of two successive settings",
  "Tests declare a couple of well-behaved types; duplicates, sign bits, undeclared states and combinations are unbounded.",
  ["parameter/SelectionCriterionType.cpp", "parameter/SelectionCriterion.cpp", "parameter/SelectionCriterionLibrary.cpp"],
  [("pair validation and lookups", "SelectionCriterionType.cpp addValuePair/getNumericalValue/getLiteralValue"), ("state formatting", "SelectionCriterionType.cpp getFormattedState"), ("state store", "SelectionCriterion.cpp setCriterionState")])
p("C13", "Application rules match exactly the criterion states they describe",
  "A configuration whose application rule is satisfied by the current criterion states is applied; one whose rule is not satisfied is not. Is, IsNot, Includes and Excludes compare the state with the rule's value, All requires every sub-rule and Any at least one, at any nesting depth. This holds for any criterion state, whether the rule came as text or from the domain description, and again after the state changes.",
  ["inputs", "history", "configurations"], "every rule of nine shapes with every choice of operators, every declared value and every criterion state, over two successive applications",
  "Tests evaluate a few fixed rules on a few states; the truth table over states and nestings is not enumerable by examples.",
  ["parameter/SelectionCriterionRule.cpp", "parameter/CompoundRule.cpp", "parameter/SelectionCriterion.cpp", "parameter/DomainConfiguration.cpp"],
  [("comparison operators", "SelectionCriterion.cpp is/isNot/includes/excludes, SelectionCriterionRule.cpp matches"), ("logical combination", "CompoundRule.cpp matches"), ("first applicable configuration", "ConfigurableDomain.cpp findApplicableDomainConfiguration")])
p("C14", "A rule text is either kept faithfully or refused without effect",
  "Setting an application rule succeeds if and only if the text is well formed and names existing criteria, fitting verbs and declared values. The rule then read is the rule set, it survives export and import of the domains, and setting the text that was read yields the same rule. A malformed text is refused with a message and the previous rule stays in force.",
  ["inputs"], "six base rules with any character replaced, any two replaced, cut anywhere, with parts dropped or inserted anywhere, and every short text over the rule alphabet",
  "Tests contain a few well-formed rules and a few malformed ones; the language of rule texts is infinite.",
  ["parameter/RuleParser.cpp", "parameter/SelectionCriterionRule.cpp", "parameter/CompoundRule.cpp", "parameter/DomainConfiguration.cpp"],
  [("tokenising and dispatch", "RuleParser.cpp iterate/parse/next"), ("criterion, verb and value parsing", "SelectionCriterionRule.cpp parse"), ("dump and XML form", "SelectionCriterionRule.cpp/CompoundRule.cpp dump, fromXml, toXml")])
p("C15", "Applying configurations leaves exactly the values the rules call for",
  "When configurations are applied, each domain takes the first of its configurations whose rule is satisfied, and copies its settings if it is not the one last applied; sequence-aware domains come after the others, and within each group a later domain wins over an earlier one on shared elements. Nothing is applied while tuning; leaving tuning mode applies every domain again, overwriting what was tuned. A domain without applicable configuration keeps its values, and the status names the last applied and the pending configuration.",
  ["history", "inputs", "configurations"], "every history of criterion changes, applications, tuning sessions, manual restores, rule changes and deletions, over overlapping domains and any criterion states",
  "Tests walk a few histories over few domains; the outcome depends on order, overlap and what was applied before.",
  ["parameter/ConfigurableDomains.cpp", "parameter/ConfigurableDomain.cpp", "parameter/DomainConfiguration.cpp", "parameter/ParameterMgr.cpp"],
  [("two passes: plain domains then sequence-aware ones", "ConfigurableDomains.cpp apply"), ("first applicable, unless already applied", "ConfigurableDomain.cpp apply/findApplicableDomainConfiguration"), ("forced application on leaving tuning mode", "ParameterMgr.cpp setTuningMode/doApplyConfigurations")])
p("C16", "Only tuning mode edits; handles set only what no domain owns",
  "Setting values by path, and creating, deleting, importing, saving, restoring or rearranging domains and configurations, by API or command, succeed only in tuning mode (names, rules and a configuration's own values can be edited at any time, and change nothing else), and tuning mode can be entered only where the configuration allows it. An element handle sets values only if no domain owns any part of the element, whatever the form of the value. A refused operation is reported with a reason and changes neither values nor domains.",
  ["history", "inputs"], "every short history over all ways to set or edit, interleaved with switching tuning mode and applying criterion changes",
  "Tests check single refusals; that no route and no order of operations leaks a change is a universal claim.",
  ["parameter/ParameterMgr.cpp", "parameter/ElementHandle.cpp", "parameter/ConfigurableElement.cpp"],
  [("gate of editing operations", "ParameterMgr.cpp checkTuningModeOn and its callers"), ("ownership", "ElementHandle.cpp checkSetValidity/checkRogue, ConfigurableElement.cpp isRogue/belongsTo"), ("tuning allowed", "ParameterMgr.cpp setTuningMode")])
p("C17", "Saving, restoring and editing configurations keep every setting exact",
  "Saving a configuration stores the current values of its domain's elements, restoring it brings exactly those values back and marks it as the applied one, and setting a value in a configuration changes that value only - and the live value too if it is the applied one. No operation disturbs another configuration or an element outside the domain. Each configuration's values can be read at any time and are those its history gives.",
  ["history", "inputs"], "every short history of saves, restores, sets in configurations and by path, and applications, over domains sharing elements, in any element order",
  "Tests perform a save and a restore on one domain; the offsets of elements within a configuration and their sharing vary without bound.",
  ["parameter/DomainConfiguration.cpp", "parameter/AreaConfiguration.cpp", "parameter/BitwiseAreaConfiguration.cpp", "parameter/ConfigurableDomain.cpp", "parameter/ParameterBlackboard.cpp"],
  [("copy between blackboards at offsets", "AreaConfiguration.cpp save/restore/copyTo/copyFrom"), ("bit fields of shared words", "BitwiseAreaConfiguration.cpp copyBits"), ("configuration and main access", "ParameterMgr.cpp accessConfigurationValue")])
p("C18", "Editing a domain's elements keeps the settings of all its configurations",
  "An element can be added to a domain that does not hold it, removed if it was added, and split into its children. Adding takes the current values for elements the domain did not hold and keeps the settings of those it did; splitting keeps every setting; removing forgets only the removed element's. Element lists, sequences and ownership of every parameter follow, and refused edits change nothing.",
  ["history", "inputs"], "every short history of additions, removals and splits of parameters, blocks, bit fields and the whole subsystem in three domains",
  "Tests add and split a few elements in fixed order; merging of nested settings depends on the history of the domain.",
  ["parameter/ConfigurableDomain.cpp", "parameter/DomainConfiguration.cpp", "parameter/AreaConfiguration.cpp", "parameter/ConfigurableElement.cpp", "parameter/ConfigurableElementAggregator.cpp"],
  [("addition with merge of held children", "ConfigurableDomain.cpp addConfigurableElement/mergeAlreadyAssociatedDescendantConfigurableElements, DomainConfiguration.cpp merge"), ("split", "ConfigurableDomain.cpp split, DomainConfiguration.cpp split"), ("removal", "ConfigurableDomain.cpp removeConfigurableElement/doRemoveConfigurableElement")])
p("C19", "Domains and configurations are created, renamed and deleted consistently",
  "A domain or configuration can be created or renamed exactly if its name is free where it lives, and deleted exactly if it exists. A new configuration starts from the domain's current settings, deletion forgets the applied one, and renaming keeps it. Sequence awareness, element sequences and rules read back as set; lists, status and ownership always agree with the history.",
  ["history"], "every short history over existing and absent names in three domains",
  "Tests create and delete a few objects; agreement of all the views after any order of edits is not enumerable.",
  ["parameter/ConfigurableDomains.cpp", "parameter/ConfigurableDomain.cpp", "parameter/DomainConfiguration.cpp", "parameter/Element.cpp"],
  [("creation and deletion", "ConfigurableDomains.cpp createDomain/deleteDomain, ConfigurableDomain.cpp createConfiguration/deleteConfiguration"), ("rename", "Element.cpp rename"), ("element sequence", "DomainConfiguration.cpp setElementSequence")])
p("C20", "Hardware gets exactly the changed settings, in order, and failures are told",
  "A subsystem plug-in is sent the settings of exactly the mapped elements an operation changes, once all values of the application are in place, or element by element in the configuration's order for sequence-aware domains. While tuning with automatic synchronisation off nothing is sent until a synchronisation is asked for, which sends everything; a subsystem asking to be resynchronised gets everything at the next application. What no applicable configuration covers is read back at start, with defaults if that fails; an operation whose transfer fails says so, and the others are still attempted.",
  ["history", "inputs", "configurations"], "every short history of criterion changes, sets, restores, synchronisation requests and mode switches, edits of domains, restarts of the subsystem, with any subset of transfers failing at each step",
  "Tests observe files a test plug-in writes in a few scenarios; which transfers fail, and the order and number of transfers over histories, are unbounded.",
  ["parameter/SyncerSet.cpp", "parameter/SubsystemObject.cpp", "parameter/ConfigurableDomain.cpp", "parameter/AreaConfiguration.cpp", "parameter/SystemClass.cpp", "parameter/ParameterMgr.cpp", "parameter/InstanceConfigurableElement.cpp"],
  [("set of objects of a domain", "ConfigurableDomain.cpp computeSyncSet/getSyncerSet"), ("element by element restore", "AreaConfiguration.cpp restore"), ("fall back to defaults", "SubsystemObject.cpp sync"), ("restart", "SystemClass.cpp checkForSubsystemsToResync"), ("automatic synchronisation", "ParameterMgr.cpp setAutoSync/sync, InstanceConfigurableElement.cpp sync")])
p("C22", "Exported domains import back the same, and faulty documents change nothing",
  "Exporting all domains or one of them and importing the document gives back the same domains: elements, configurations, rules, sequence awareness, element order and, with settings, every value; without settings, or for values the document leaves out, values come from the first configuration that has them, else from the current ones. Importing changes no current value. A single import is refused where the name is taken and overwriting was not asked for. A document with an unknown path, criterion, value or configuration, a value out of range, or a structure that does not match is refused with an explanation: refused alone it changes nothing, refused as the whole it leaves no domain half imported.",
  ["history", "inputs", "configurations"], "every one-step edit of domains before and after the export, any digit as value, both document kinds, with and without settings on either side, from file or text; any subset of settings missing; sixteen kinds of faults with symbolic values",
  "Tests import a few fixed documents; what an import leaves behind after any edit or at any fault is unbounded.",
  ["parameter/ParameterMgr.cpp", "parameter/ConfigurableDomains.cpp", "parameter/ConfigurableDomain.cpp", "parameter/DomainConfiguration.cpp", "parameter/AreaConfiguration.cpp"],
  [("import and export", "ParameterMgr.cpp importDomainsXml/importSingleDomainXml/exportDomainsXml/exportSingleDomainXml"), ("domain document", "ConfigurableDomain.cpp fromXml/parseSettings/composeSettings"), ("settings", "DomainConfiguration.cpp parseSettings/importOneConfigurableElementSettings"), ("missing settings", "ConfigurableDomain.cpp autoValidateAll, ParameterMgr.cpp validate"), ("name taken", "ConfigurableDomains.cpp addDomain")])

p("C21", "Settings read as XML or bytes restore the element exactly, or nothing changes",
  "The settings of any element - parameter, block, subsystem or whole system - read as a document or as bytes through its handle and given back later restore it, whatever its values were, in real, raw and hexadecimal output; domains exported in any of these formats import back with the same values. Nothing outside the element changes. A document of another element, with a missing, extra, renamed or unacceptable value, or bytes of another number are refused with an explanation and then nothing changes at all. Settings can be set through a handle exactly on elements that no domain owns, owns in part or owns the parent of.",
  ["inputs", "configurations"], "every stored value of every kind of leaf, every element containing it, every output format pair; every byte string of the sizes around the element's; fourteen kinds of faulty documents with symbolic characters",
  "Tests round-trip a handful of fixed documents; the value, the element, the format and the position of a fault are unbounded.",
  ["parameter/ConfigurableElement.cpp", "parameter/BaseParameter.cpp", "parameter/Parameter.cpp", "parameter/ElementHandle.cpp", "parameter/ParameterMgr.cpp", "parameter/ParameterBlackboard.cpp", "parameter/FixedPointParameterType.cpp", "parameter/FloatingPointParameterType.cpp", "parameter/EnumParameterType.cpp"],
  [("recursive settings", "ConfigurableElement.cpp serializeXmlSettings"), ("leaf value", "BaseParameter.cpp serializeXmlSettings"), ("value space", "FixedPointParameterType.cpp handleValueSpaceAttribute"), ("bytes", "ConfigurableElement.cpp getSettingsAsBytes/setSettingsAsBytes"), ("all or nothing", "ParameterMgr.cpp setSettingsAsXML"), ("rogue check", "ElementHandle.cpp checkRogue")],
  "Real text of a floating-point number has six significant digits, so real documents of floats restore that many; the raw text of a negative enumeration literal in a domain's export is a known finding")

p("C23", "A path designates exactly the element it spells, everywhere a path is taken",
  "Every text given as a path either spells the names from the system class down to an existing element - empty items between slashes not counting, an array parameter's element being spelt by its decimal index - and then the operation is on that element and no other, or it is refused with an explanation and nothing changes. This holds alike for reading and setting values, for handles, sizes, dumps and lists, for adding elements to domains, for the values of configurations and for asking which domain an element belongs to.",
  ["inputs"], "every path text of up to eight bytes (four where the arguments of commands are stripped of blanks), every continuation of up to five bytes of four prefixes, and eight longer paths with any one or two characters replaced, added or left out, through twenty-two operations",
  "Tests spell a few existing paths and a few obviously absent ones; which of all other texts is taken for an element is not sampled.",
  ["utility/PathNavigator.cpp", "parameter/PathNavigator.cpp", "parameter/ElementLocator.cpp", "parameter/Element.cpp", "parameter/ArrayParameter.cpp", "parameter/ConfigurableElement.cpp", "parameter/ParameterMgr.cpp"],
  [("items", "PathNavigator.cpp init/next"), ("descent", "Element.cpp findDescendant, ConfigurableElement.cpp accessValue"), ("array index", "ArrayParameter.cpp getIndex"), ("location", "ElementLocator.cpp locate")])

p("C25", "Messages arrive as sent, and a damaged or invented message is refused harmlessly",
  "A request a client sends is executed by the remote server once, with the same command and arguments (stripped of surrounding blanks), and its answer reaches the client with the same text and outcome. Bytes that are not a whole well formed message - cut anywhere, with any byte of the marker, the kind, the contents or the check sum altered, or arbitrary - execute nothing, crash nothing and access nothing beyond the message; the connection is dropped and the next one served, also when the peer disappears while it is answered.",
  ["inputs", "fault-schedules"], "every request of a command and up to two arguments of up to two bytes each cut at every length and altered at every byte; every byte string of up to sixteen bytes (size field at most 40) and every contents of up to nine bytes in a correct frame; every answer of up to three bytes, cut at every length",
  "Tests never touch the wire format; the bytes a network or a stranger delivers are arbitrary.",
  ["remote-processor/Message.cpp", "remote-processor/RequestMessage.cpp", "remote-processor/AnswerMessage.cpp", "remote-processor/RemoteProcessorServer.cpp"],
  [("framing", "Message.cpp serialize"), ("strings", "Message.cpp readString/writeString"), ("contents", "RequestMessage.cpp collectReceivedData"), ("service", "RemoteProcessorServer.cpp handleNewConnection")],
  "Requires 0-free texts; a size field above 40 is left out (the server allocates what the field says before reading)")

p("C26", "A command does what its operation does; a refused command changes nothing",
  "Each command of the tuning interface succeeds exactly when the operation of the connector it stands for does, with the same effect on modes, settings and domains. A command with fewer arguments than its usage names is refused with that usage, whatever the others are; any refusal is explained and leaves modes, settings and domains as they were (a refused import of all domains may leave none); a name that is no command is refused as not found.",
  ["inputs", "configurations"], "all commands listed by help with every number of arguments up to one more than needed, each argument any of the fitting values or any character, in and out of tuning mode; twenty operations compared in pairs; every command name of up to five bytes",
  "Tests call each command with fixed good arguments; argument counts and texts combine without end.",
  ["parameter/ParameterMgr.cpp", "remote-processor/RemoteCommandHandlerTemplate.h", "remote-processor/RequestMessage.cpp", "parameter/CommandHandlerWrapper.cpp"],
  [("dispatch and argument count", "RemoteCommandHandlerTemplate.h remoteCommandProcess"), ("commands", "ParameterMgr.cpp *CommandProcess"), ("arguments", "RequestMessage.cpp packArguments")])

p("C27", "Every use of the current settings happens under the lock that belongs to them",
  "Whatever reads or writes the values currently in force - handles of elements and parameters in every type, the connector's operations, every command of the tuning interface, the application of configurations and the synchronisation of plug-ins - does so while holding a lock, the same one for all of them, and no operation keeps it or takes it twice. Outside tuning mode, when configurations may be applied at any moment, rules and names of configurations and domains change under that lock only. So no schedule of the threads of the platform, the tuning server and the application can interleave within a use of the settings.",
  ["interleavings", "histories"], "every access to the blackboard's memory made by any of 24 uses of a handle on 8 kinds of elements, 11 of the older parameter handle, 32 connector operations and all commands, in and out of tuning mode, with automatic synchronisation or not, plug-ins failing or not, and pairs of operations in the thorough tier",
  "Tests run one thread and cannot see a missing lock; a lock set argument covers all schedules.",
  ["parameter/ParameterMgr.cpp", "parameter/ElementHandle.cpp", "parameter/ParameterBlackboard.cpp", "parameter/SyncerSet.cpp"],
  [("lock", "ParameterMgr.cpp getBlackboardMutex"), ("handles", "ElementHandle.cpp setAs/getAs"), ("application", "ParameterMgr.cpp applyConfigurations"), ("tuning", "ParameterMgr.cpp accessValue/sync/restoreConfiguration")])

p("C24", "Mappings decide which plug-in objects exist, on what and with what values",
  "From the Mapping attributes of a structure, one plug-in object is made for each topmost element that names a key the plug-in offers, in the order of the elements, and none elsewhere. It receives every context key set by the element or its ancestors (an instance's mapping taking precedence over its type's, that over the extended type's) under its index and under its key, and a value in which %1 to %9 are replaced by those keys. A repeated key, a key set again below, a missing ancestor key, an oversized element or a mapped parameter without an object key is refused at start with an explanation. showMapping shows these mappings, and a handle finds a key in the mapping of its element, else of the nearest ancestor that has it.",
  ["configurations", "inputs"], "all combinations of three to six mappings on a subsystem, a component, its type, the extended type and a parameter; every printable text of up to six characters as mapping of a parameter or a subsystem and as value of a context key or an object",
  "Tests use one fixed structure per plug-in; inheritance, amendment and conflicts combine freely.",
  ["parameter/Subsystem.cpp", "parameter/MappingData.cpp", "parameter/MappingContext.cpp", "parameter/FormattedSubsystemObject.cpp", "parameter/ComponentInstance.cpp", "parameter/ComponentType.cpp", "parameter/InstanceConfigurableElement.cpp", "parameter/TypeElement.cpp"],
  [("object creation", "Subsystem.cpp mapBegin/handleSubsystemObjectCreation"), ("context", "Subsystem.cpp handleMappingContext"), ("amendment", "FormattedSubsystemObject.cpp formatMappingValue"), ("inheritance", "ComponentInstance.cpp getMappingData"), ("introspection", "Subsystem.cpp getMapping, ElementHandle.cpp getMappingData")])

p("C29", "The C interface does what its header says in every order of calls",
  "Every C function succeeds exactly when it can do its work - the framework started, the name known, the value in range, the criteria well formed - and then does it: criteria read back as set and act only when configurations are applied, parameters read back as set. The last error is empty exactly after a success. A start that failed leaves the handle as it was: other functions are refused, nothing aborts, and a later valid start succeeds. Logs go to the given callback with its context, or nowhere without one.",
  ["histories", "inputs"], "every history of three calls out of seven functions (four in the thorough tier) from a new or started handle, ten good and bad ways to start, any 32-bit value and any text of up to five bytes for parameters",
  "Tests check single calls from a good state, not calls after a failure.",
  ["bindings/c/ParameterFramework.cpp", "parameter/ParameterMgrPlatformConnector.cpp", "parameter/ParameterHandle.h"],
  [("start", "ParameterFramework.cpp pfwStart/createCriteria"), ("criteria", "ParameterFramework.cpp pfwSetCriterion"), ("parameters", "ParameterFramework.cpp pfwBindParameter"), ("errors", "ParameterFramework.cpp Status")])

p("C28", "Faulty documents refuse the start with an explanation, or it works",
  "Starting from any configuration, structure and domain documents either succeeds and leaves a usable framework, or is refused with a non-empty explanation; it never aborts, throws, recurses without end or touches memory it should not. Missing and ill-formed documents, attributes that are not of their kind or out of range, inconsistent sizes, unknown types and types containing themselves are refused. Missing plug-ins and failing settings prevent the start exactly if that was asked for; otherwise the framework starts, without the domains that failed.",
  ["inputs", "configurations"], "every attribute of the three documents with any text of up to two characters or left out, every element left out, doubled, emptied or renamed, every character replaced or the document cut there, any documents missing, every way three component types can refer to each other",
  "Tests start from valid documents and a few faulty ones; where a fault sits and what it looks like is unbounded.",
  ["parameter/ParameterMgr.cpp", "parameter/Element.cpp", "parameter/Subsystem.cpp", "parameter/SystemClass.cpp", "parameter/ComponentInstance.cpp", "parameter/ComponentType.cpp", "parameter/ParameterType.cpp", "parameter/BitParameterType.cpp", "parameter/ConfigurableDomain.cpp", "xmlserializer/XmlDocSource.cpp", "xmlserializer/XmlElement.cpp", "parameter/ParameterFrameworkConfiguration.cpp"],
  [("loading", "ParameterMgr.cpp load/loadFrameworkConfiguration/loadSubsystems/loadStructure/loadSettings"), ("elements", "Element.cpp fromXml/createChild"), ("attributes", "XmlElement.cpp getAttribute and every fromXml"), ("component types", "ComponentInstance.cpp fromXml, ComponentType.cpp fromXml")],
  "Elements in places where the schema does not allow them are outside: schema validation is optional and not encoded")

p("C30", "The tree is the declared structure, each parameter on bytes of its own",
  "The elements of a structure are exactly the declared ones, in the declared order: those of a component's type come before those of the type it extends, an array of blocks or components has one numbered child for each index. Each has its declared kind, name, path, length, size, description and children, and the listing commands say so; the properties told - range, unit, layout, literals - are those declared. Each parameter is stored on its own bytes, adjacent in declared order and little endian, bit fields within their block; setting an element changes its bytes only. The exported structure describes the same tree again.",
  ["inputs", "configurations"], "every combination of two or three elements out of twenty kinds, nested components and arrays included, with any content of every byte",
  "Tests build a handful of structures and never check offsets; a size, padding or inheritance error shows only for particular neighbours.",
  ["parameter/Element.cpp", "parameter/ConfigurableElement.cpp", "parameter/ComponentInstance.cpp", "parameter/ComponentType.cpp", "parameter/ParameterBlockType.cpp", "parameter/InstanceConfigurableElement.cpp", "parameter/BitParameterBlock.cpp", "parameter/BitParameterBlockType.cpp", "parameter/ParameterBlackboard.cpp", "parameter/BaseParameter.cpp", "parameter/ParameterMgr.cpp"],
  [("instantiation", "ComponentInstance.cpp/ParameterBlockType.cpp populate"), ("offsets", "ConfigurableElement.cpp setOffset, getFootPrint"), ("storage", "ParameterBlackboard.cpp"), ("structure export", "ElementHandle.cpp getStructureAsXML"), ("listing", "ParameterMgr.cpp listElements/listParametersCommandProcess")])

p("C31", "What the listing, dump and query commands say is what is",
  "At any time the query commands tell the state: the domains an element was added to and those it belongs to through an ancestor; the elements held by domains, by more than one, and the largest ones held by none; every domain with its awareness, last and pending configurations and rules; the criteria with their possible and current states in all three formats; the settings of the tuning interface. Values, bytes and XML told by command are those of the element, and the bytes told can be given back. Exported files hold the domains or the one domain asked for, with settings exactly if asked for.",
  ["histories", "inputs"], "every history of two operations on the elements of three domains over nine nested elements, or on domains and configurations with any names; any criterion state; any settings of the interface; any content of two bytes",
  "Tests ask each question once in one state; ownership questions depend on how elements of domains nest after any edits.",
  ["parameter/ConfigurableElement.cpp", "parameter/ConfigurableElementAggregator.cpp", "parameter/ConfigurableDomains.cpp", "parameter/ConfigurableDomain.cpp", "parameter/SelectionCriterion.cpp", "parameter/SelectionCriterionType.cpp", "parameter/Element.cpp", "parameter/ParameterMgr.cpp"],
  [("ownership", "ConfigurableElement.cpp getBelongingDomains/listRogueElements, ConfigurableElementAggregator.cpp"), ("domain listings", "ConfigurableDomains.cpp listAssociatedElements/listConflictingElements"), ("dump", "Element.cpp dumpContent, ConfigurableDomain.cpp logValue"), ("status and criteria", "ParameterMgr.cpp statusCommandProcess/listCriteriaCommandProcess"), ("exports", "ParameterMgr.cpp exportDomains*CommandProcess")])

p("C32", "A start follows its policies on plug-ins, settings, documents and remote access",
  "Every plug-in listed is loaded once, after those it depends on, in whatever order they are listed, under its name or the library name completed from it, and unloaded only after its subsystems. A plug-in that cannot be loaded or a subsystem type nobody provides refuses the start, unless the client lets virtual subsystems stand in; settings that cannot be read refuse it, unless the client prefers a fresh system without domains. Documents are found relative to the one that refers to them, and an included structure is the same as one written in place. The remote interface listens on the configured port exactly if tuning is allowed and the client did not rule it out; a port that is taken refuses the start and is harmless. Options chosen are the ones in force; those of the start cannot change after it.",
  ["configurations", "histories", "faults"], "every dependency among three plug-ins and every way each fails, any plug-in name of up to five characters, any port, every state of the settings and place of the documents, every three changes of options",
  "Tests load one plug-in in one order, and never start while the port is taken.",
  ["parameter/SystemClass.cpp", "utility/DynamicLibrary.cpp", "utility/posix/DynamicLibrary.cpp", "parameter/ParameterMgr.cpp", "parameter/ParameterMgrPlatformConnector.cpp", "parameter/XmlFileIncluderElement.cpp", "parameter/DefaultElementLibrary.h", "remote-processor/BackgroundRemoteProcessorServer.cpp", "xmlserializer/XmlDocSource.cpp"],
  [("plug-ins", "SystemClass.cpp loadSubsystemsFromSharedLibraries/loadPlugins"), ("names", "DynamicLibrary.cpp osSanitizePathName"), ("fallback", "DefaultElementLibrary.h createElement"), ("settings", "ParameterMgr.cpp loadSettings"), ("inclusion", "XmlFileIncluderElement.cpp fromXml"), ("remote interface", "ParameterMgr.cpp handleRemoteProcessingInterface"), ("options", "ParameterMgrPlatformConnector.cpp")])

p("C33", "EDD and criteria files become exactly the settings they describe",
  "The generator tools turn an EDD file into commands that create exactly the domains and configurations it describes: names are prefixed by those of the enclosing groups, a domain is sequence aware if it or a group says so, a configuration applies exactly when its own rules, those of every enclosing group and domain and those of configuration types of its name defined before hold, with operators nested as indented, and it sets exactly the parameters written, under the path their components give, to the values written. Comments and blank lines mean nothing. Lines of no known kind, in a place of no meaning, or indented too far or with spaces are refused by number; so are domains whose configurations set different parameters. A criteria file creates each criterion with its kind, name and values in order, before the start; imports follow it. The generator script gives all this, whole, to the generator program, on a copy of the configuration that allows tuning and loads no settings or plug-ins, and ends with its exit code; a faulty file ends the script first.",
  ["inputs"], "every pair of lines of eleven kinds and five depths after eight starts, every combination of rules, equal names and types around two configurations, any names, values, paths, rules and criteria of a few characters",
  "The tools have no tests of what they generate; inheritance of rules by group and type shows errors only for particular nestings and equal names.",
  ["tools/xmlGenerator/EddParser.py", "tools/xmlGenerator/PfwBaseTranslator.py", "tools/xmlGenerator/PFWScriptGenerator.py", "tools/xmlGenerator/domainGenerator.py", "tools/xmlGenerator/hostConfig.py"],
  [("parsing", "EddParser.py ElementsFactory, Parser"), ("inheritance", "EddParser.py propagate, ruleInheritance, composition"), ("rules", "EddParser.py PFWSyntax, getRuleString"), ("commands", "PfwBaseTranslator.py, PFWScriptGenerator.py PfwScriptTranslator"), ("criteria", "domainGenerator.py parseCriteria, generateDomainCommands"), ("programs", "domainGenerator.py main, hostConfig.py configure, PFWScriptGenerator.py main")])

p("C34", "The generator program prints exactly the domains its commands make",
  "The program behind the domain generator runs each line of its input, in order, as a command whose words are separated by NUL bytes: it creates criteria with their kind and values, starts the framework in tuning mode, and gives every other line to the framework as a command. It prints the domains and settings that result and nothing else. A command that fails is told and the rest still carried out; the exit code is the number of failures, one more if elements are in several domains, and 255 at most. A criterion or start that fails ends it with nothing printed and exit code 1. Missing plug-ins, unreadable settings of the configuration and a busy port do not matter to it.",
  ["inputs", "configurations"], "any line of a few bytes, all combinations of right and wrong commands, criteria of either kind, any number of failures",
  "No test runs the program; exit codes and what is printed depend on which of many commands fail.",
  ["tools/xmlGenerator/domainGeneratorConnector.cpp", "utility/Tokenizer.cpp", "parameter/ParameterMgrFullConnector.cpp", "parameter/CommandHandlerWrapper.cpp"],
  [("input", "domainGeneratorConnector.cpp parse"), ("criteria", "domainGeneratorConnector.cpp addCriteria"), ("exit code", "domainGeneratorConnector.cpp normalizeExitCode, main"), ("export", "domainGeneratorConnector.cpp exportDomains")])

p("C35", "The remote client carries a command and tells its outcome faithfully",
  "The client program connects to the host and port it is given, sends the command and its arguments word for word, and waits for the answer. If the command succeeded it prints the answer on its output and exits with 0; if it failed it prints the answer as an error and exits with 1. Too few arguments, nobody listening, a peer that leaves before the request was taken or before the answer is complete end it with an error message, nothing on its output and exit code 1. A command given through it does to the framework what the command does when given directly.",
  ["inputs", "faults"], "any words and answers of a few bytes, the peer leaving after every number of bytes in either direction",
  "Tests call the client on a healthy server with a few plain commands; nothing tests an answer cut short or unusual words.",
  ["remote-process/main.cpp", "remote-processor/Message.cpp", "remote-processor/RequestMessage.cpp", "remote-processor/AnswerMessage.cpp", "remote-processor/RemoteProcessorServer.cpp", "parameter/CommandHandlerWrapper.cpp"],
  [("client", "remote-process/main.cpp main/sendAndDisplayCommand"), ("messages", "Message.cpp serialize"), ("server", "RemoteProcessorServer.cpp handleNewConnection")])

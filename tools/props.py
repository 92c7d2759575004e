def p(i, title, st, over, q, why, files, mech, obs=None):
    d = {'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
         'anchors': {'files': ['Src/libCZI/' + f for f in files], 'mechanism': [{'name': n, 'where': 'Src/libCZI/' + w} for n, w in mech]}}
    if obs: d['anchors']['observe_at'] = obs
    assert len(title) <= 80, title
    return d
I = ['inputs']; H = ['histories', 'inputs']
PROPS = [
 p('P01', 'Parsing an arbitrary file never leaves its buffers or the reported errors',
   'For every byte sequence presented as a CZI document, opening it, enumerating it and reading any of its subblocks, attachments or its metadata ends either in a result or in one of the documented exceptions. No such call reads or writes outside the objects it owns, uses a size, count or offset from the file before it was checked, or terminates the process.',
   I, 'all file contents and all lengths at which the stream ends', 'a test reads a few well-formed files; the guarantee is about every malformed one (every declared size, count and position)',
   ['CziParse.cpp', 'CZIReader.cpp', 'CziSubBlock.cpp', 'CziAttachment.cpp'], [('segment readers with size and bounds checks', 'CziParse.cpp'), ('bounds of in-memory streams', 'StreamImpl.cpp')]),
 p('P02', 'What the parser reports is what the file bytes say',
   'For every well-formed file header, subblock directory, attachment directory, subblock, attachment and metadata segment, every value the library reports (version, identifiers, positions, coordinates, mosaic index, logical and physical size, pixel type, compression, pyramid type, names, payload bytes) equals the little-endian value stored at the documented offset. No entry is dropped, duplicated, invented or reordered, and a structure whose magic, dimension count or sizes are inconsistent is refused.',
   I, 'all values of all fields of well-formed segments', 'the tests compare a few fields of a few files',
   ['CziParse.cpp', 'CziStructs.h', 'CziUtils.cpp'], [('field extraction and schema dispatch', 'CziParse.cpp'), ('packed on-disk structures', 'CziStructs.h')]),
 p('P03', 'Written documents read back identically',
   'For every sequence of subblocks, attachments and metadata accepted by the writer, the closed document contains exactly those items: each subblock with the coordinate, mosaic index, logical rectangle, physical size, pixel type, compression and pyramid type it was added with, and pixel data, subblock metadata, subblock attachment, attachment and metadata bytes identical to what was passed in. An item that duplicates an existing one is refused and changes nothing, and nothing else appears in the document.',
   H, 'all add histories, all coordinates, sizes and payloads', 'tests write a few documents with a few payload sizes',
   ['CziWriter.cpp', 'CziSubBlockDirectory.cpp', 'CziAttachmentsDirectory.cpp', 'CziParse.cpp'], [('segment writers', 'CziWriter.cpp'), ('directory containers', 'CziSubBlockDirectory.cpp')]),
 p('P04', 'Every written document is a well-formed chain of segments',
   'At the end of every writing history the document is a gap-free sequence of segments that starts with the file header and ends at the end of the file (an unused reservation at the end may stay unwritten, and an edited document may keep unreferenced bytes behind its last live segment), each 32-byte aligned in allocation, with a used size not above the allocated size and large enough for its content. The header points to exactly one live subblock directory, attachment directory and metadata segment, and each directory entry points to the start of a live segment of the right kind that carries an identical entry.',
   H, 'all writer histories including reserved sizes and payload sizes', 'tests never walk the segment chain of what was written',
   ['CziWriter.cpp', 'CziReaderWriter.cpp', 'CziStructs.h'], [('segment position and alignment arithmetic', 'CziWriter.cpp'), ('CWriterUtils', 'CziWriter.cpp')]),
 p('P05', 'Editing a document in place changes exactly what was asked',
   'For every sequence of add, replace and remove operations applied to an existing document opened for editing, after closing, the document contains exactly the items that result from applying these operations in order to the original set; every item that was not replaced or removed is unchanged byte for byte. Data that is still referenced is never overwritten, whatever the sizes of the new items, and information reported while editing agrees with what a reader sees afterwards.',
   H, 'all edit histories over all existing documents', 'tests apply one or two edits; relocation and reuse of space depends on the history of sizes',
   ['CziReaderWriter.cpp', 'CziWriter.cpp', 'CziSubBlockDirectory.cpp', 'CziAttachmentsDirectory.cpp'], [('replace in place or append', 'CziReaderWriter.cpp'), ('PixelDirectory bookkeeping', 'CziSubBlockDirectory.cpp')]),
 p('P06', 'Subblock statistics are the exact summary of the document',
   'For every set of subblocks and every order in which they are listed, the reported subblock count, minimum and maximum mosaic index, bounding boxes (all and layer 0), per-dimension bounds and per-scene bounding boxes equal the values computed directly from the list. The pyramid statistics count every subblock of each scene in exactly one layer, with the layer determined by the ratio of its logical to its physical size.',
   I, 'all multisets and orders of subblocks', 'tests compare a few documents; min/max/union logic depends on order, on missing dimensions and on signs',
   ['CziSubBlockDirectory.cpp'], [('CSbBlkStatisticsUpdater', 'CziSubBlockDirectory.cpp')]),
 p('P07', 'Subset enumeration delivers exactly the matching items',
   'For every document and every filter (plane coordinate, region of interest, layer-0 only, scene/index set, attachment name and type), the enumeration reports exactly those items that satisfy the filter, each once, in directory order, with their own index and information, and stops exactly when the callback asks for it. Reading an item by an enumerated index gives the item the enumeration described; an index that does not exist is reported as absent.',
   I, 'all documents and filters', 'tests use a few documents and a few filters',
   ['CziReaderCommon.cpp', 'CZIReader.cpp', 'CziReaderWriter.cpp', 'CziUtils.cpp'], [('CziReaderCommon::EnumerateSubset', 'CziReaderCommon.cpp'), ('CziUtils::CompareCoordinate', 'CziUtils.cpp')]),
 p('P08', 'Dimension coordinates and bounds behave as finite maps',
   'For every sequence of set, clear and copy operations, a coordinate (and a dimension-bounds object) reports for each dimension exactly the value set last, and enumerates the valid dimensions once, in order. Comparison of coordinates is the lexicographic total order over dimensions, parsing the textual form gives back the same object and anything else is refused, and enumerating all coordinates within bounds yields each member of the product exactly once.',
   H, 'all operation histories, values and strings', 'tests use a few coordinates; the state is a bit mask plus packed array',
   ['DimCoordinate.cpp', 'libCZI_DimCoordinate.h', 'libCZI_Utilities.cpp', 'CziDimensionInfo.cpp'], [('CDimBase template', 'libCZI_DimCoordinate.h'), ('Utils::Compare, EnumAllCoordinates', 'libCZI_Utilities.cpp')]),
 p('P09', 'Bitmap copy and pixel-type conversion touch exactly the overlap',
   'For every pair of bitmaps, strides and offsets, copying a source into a destination at an offset changes exactly the pixels of the overlap to the (converted) corresponding source pixels, leaves every other byte of the destination - including row padding - and the whole source unchanged, and never accesses memory outside the two bitmaps. For each supported pair of pixel types the conversion of a pixel is the documented component mapping; unsupported pairs are refused.',
   I, 'all sizes, strides, offsets (negative and beyond the edge included) and pixel values', 'tests use a few sizes and offsets',
   ['BitmapOperations.cpp', 'BitmapOperations.h', 'BitmapOperations.hpp', 'SingleChannelTileCompositor.cpp'], [('CBitmapOperations::Copy, CopyWithOffset and converters', 'BitmapOperations.hpp')]),
 p('P10', 'Resizing and filling stay inside the bitmap and hit every pixel',
   'For every source and destination rectangle, nearest-neighbour resizing writes only pixels inside both the bitmap and the rounded (closed) destination rectangle, takes each of them from the nearest source pixel (clamped to the source bitmap), sets every pixel in that rectangle whose back-projection lies inside the source, and never accesses memory outside either bitmap. Filling a bitmap sets every pixel to the colour converted to its pixel type and leaves row padding untouched.',
   I, 'all sizes, strides and rectangles', 'tests use a few sizes; edge rounding depends on the exact rectangle',
   ['BitmapOperations.cpp', 'BitmapOperations.hpp'], [('CBitmapOperations::NNResize/NNScale2/Fill', 'BitmapOperations.cpp')]),
 p('P11', 'Lo-hi byte packing and unpacking are exact inverses',
   'For every width, height, stride and content, splitting 16-bit samples into the low-byte plane followed by the high-byte plane places each byte of each sample at its defined position, and the reverse operation restores every sample. Row padding is neither read as data nor modified, no byte outside the given buffers is accessed, and arguments that do not fit the buffers are refused.',
   I, 'all widths, heights, strides and contents', 'tests use a few images',
   ['utilities.cpp', 'utilities.h'], [('LoHiBytePackUnpack', 'utilities.cpp')]),
 p('P12', 'Subblock payloads decode to the original pixels, bad ones are refused',
   'For every bitmap and every compression parameter, compressing it with the built-in ZStd coders and decoding the result gives the original pixels, with or without lo-hi packing and for every stride. An uncompressed payload gives exactly its bytes row by row. A payload that is truncated, has an unknown header or does not decompress is refused with an exception, a payload with more or less data than the bitmap needs is handled exactly as configured (refused, or cropped and zero-filled), and no access leaves the buffers.',
   I, 'all bitmaps, parameters and payload bytes', 'tests decode a few encoded images; size mismatch and header variants are sampled',
   ['decoder_zstd.cpp', 'zstdCompress.cpp', 'libCZI_compress.h', 'CreateBitmap.cpp'], [('uncompressed payloads', 'CreateBitmap.cpp'), ('ParseZStd1Header and size-mismatch handling', 'decoder_zstd.cpp'), ('ZstdCompress', 'zstdCompress.cpp')]),
 p('P13', 'Rectangle algebra and visibility are exact',
   'For all rectangles, intersection, overlap and containment tests and union agree with the point sets they denote, and the covered area reported for a set of added rectangles (with edges representable as int) is the area of the intersection of the query with their union. A tile list reduced by the visibility test contains every tile of which at least one pixel of the region of interest is not covered by later tiles, in unchanged order.',
   H, 'all rectangles and all sequences of added rectangles', 'tests use a few constellations',
   ['utilities.h', 'utilities.cpp', 'libCZI_Pixels.h', 'SingleChannelAccessorBase.cpp'], [('RectangleCoverageCalculator', 'utilities.cpp'), ('CheckForVisibility', 'SingleChannelAccessorBase.cpp')]),
 p('P14', 'The subblock cache accounts exactly for what it holds',
   'After every sequence of add, get and prune operations, the cache returns for a key exactly the bitmap that was added last under it and was not pruned, and its reported element count and memory usage equal the number and total size of the bitmaps it holds. Pruning removes least-recently-used elements first, no more than necessary, until the given limits are met.',
   ['histories'], 'all operation histories', 'tests run a few short histories',
   ['subblock_cache.cpp', 'subblock_cache.h'], [('SubBlockCache', 'subblock_cache.cpp')]),
 p('P15', 'An index set contains exactly the indices its text denotes',
   'For every index-set expression, membership of an index holds exactly if the index lies in one of the listed numbers or (possibly open-ended) intervals. A text that is not a valid expression is refused.',
   I, 'all expressions and all indices', 'tests use a few expressions', ['IndexSet.cpp', 'IndexSet.h'], [('CIndexSet', 'IndexSet.cpp')]),
 p('P16', 'Points and rectangles convert between frames of reference consistently',
   'For every document, converting a point or rectangle from the raw subblock frame to the pixel frame shifts it by exactly the origin of the layer-0 bounding box and converting it back restores it; the default frame is resolved as configured, and the size of a rectangle never changes. Requests in either frame address the same pixels.',
   I, 'all documents, points and rectangles', 'tests use a few documents with one origin', ['CziReaderCommon.cpp', 'CZIReader.cpp', 'CziReaderWriter.cpp', 'libCZI.h'], [('TransformPoint / GetDefaultFrameOfReference', 'CziReaderCommon.cpp')]),
 p('P17', 'Bitonal bitmaps address exactly one bit per pixel',
   'For every size and stride, setting, clearing or filling pixels of a bitonal bitmap changes exactly the addressed pixels inside the bitmap (padding bits of a row are not pixels); reading returns the value last written. Copying with a mask changes exactly the destination pixels inside the overlap whose mask bit is set, decimation combines exactly the documented neighbourhood, and no access leaves the bitmaps.',
   I, 'all sizes, strides, offsets, regions and contents', 'tests use a few sizes; bit offsets within bytes vary with x', ['BitmapOperationsBitonal.cpp', 'BitmapOperationsBitonal.h', 'BitmapOperations.hpp', 'libCZI_Pixels.cpp'], [('BitonalBitmapOperations', 'BitmapOperationsBitonal.cpp'), ('CopyWithOffsetAndMask', 'BitmapOperations.hpp')]),
 p('P18', 'On-disk codes and their meanings are a bijection',
   'For every integer, the pixel type, compression and pyramid-type codes and the dimension letters of the file format map to the meaning the format assigns and back to the same code; everything else is reported as invalid. The number of bytes per pixel is the one the format defines for each pixel type.',
   I, 'all integer codes and letters', 'tests sample a few codes', ['CziUtils.cpp', 'libCZI_Utilities.cpp'], [('code tables', 'CziUtils.cpp')]),
 p('P19', 'The C interface reports the same document as the C++ interface',
   'For every document, every value and payload obtained through the C interface (statistics, subblock and attachment information, raw data, bitmaps) equals what the C++ interface reports for the same item, copied without exceeding the capacities the caller states, and invalid arguments are reported as an error code. Documents created through the C writer interface read back as specified.',
   I, 'all documents and buffer capacities', 'tests compare a few values', ['../libCZIAPI/src/libCZIApi.cpp', '../libCZIAPI/src/parameterhelpers.cpp'], [('conversion helpers', '../libCZIAPI/src/parameterhelpers.cpp')]),
 p('P20', 'A composed image is the tiles painted in order over the background',
   'For every document, plane, region and option, the image delivered by the tile accessors equals painting the matching layer-0 (or selected pyramid-layer) tiles in ascending mosaic index over the background, pixel by pixel, converted to the requested pixel type; for the scaling accessor this holds at zoom 1, scene by scene. With masks considered, exactly the pixels whose mask bit is set are painted. Caching, visibility optimisation and the order of subblocks in the file do not change any pixel.',
   I, 'all documents, regions and option combinations', 'tests compare a few compositions', ['SingleChannelTileAccessor.cpp', 'SingleChannelAccessorBase.cpp', 'SingleChannelTileCompositor.cpp', 'SingleChannelPyramidLevelTileAccessor.cpp', 'SingleChannelScalingTileAccessor.cpp'], [('SingleChannelTileAccessor::Get', 'SingleChannelTileAccessor.cpp'), ('Compositors::ComposeSingleChannelTiles', 'SingleChannelTileCompositor.cpp')]),
 p('P21', 'Concurrent reads and cache operations behave as if serialised',
   'When several threads read subblocks, attachments, metadata or statistics from one open reader (on any stream over a local file or memory), or use one subblock cache, each call has the result it would have in some sequential order of the calls: each byte read is the one at its position in the file, memory usage and element count of the cache belong to the same moment, and no call makes unsynchronised accesses to state that another call changes. A call that overlaps with closing the reader either completes with its regular result or is refused, and never uses a stream that has been released.',
   ['schedules'], 'all interleavings of calls', 'a test observes a handful of schedules', ['CZIReader.cpp', 'subblock_cache.cpp', 'StreamImpl.cpp', 'StreamsLib/simplefileinputstream.cpp', 'StreamsLib/preadfileinputstream.cpp', 'CziSubBlockDirectory.cpp'], [('mutexes', 'subblock_cache.cpp'), ('stream reference and operational state', 'CZIReader.cpp'), ('positional reads', 'StreamImpl.cpp'), ('seek and read under one lock', 'StreamsLib/simplefileinputstream.cpp'), ('statistics are complete before they are queried', 'CziSubBlockDirectory.cpp')]),
 p('P22', 'Metadata XML is interpreted as the schema says',
   'For every metadata document, scaling, dimension, display-setting and general-information queries return exactly the values the XML holds, and metadata built through the builder reads back with the same values.',
   I, 'all XML documents', 'tests use a few documents', ['CziMetadata.cpp', 'CziMetadataDocumentInfo2.cpp', 'CziMetadataBuilder.cpp', 'CziDisplaySettings.cpp'], [('XML queries', 'CziMetadataDocumentInfo2.cpp')]),
 p('P23', 'Channel composition maps every pixel through its look-up table',
   'For every set of channel bitmaps (each with its own pixel type and stride) and display settings with black and white points within 0..1, each colour component of each pixel of the composed image is the sum, saturated at 255, over all channels of the pixel value mapped through the look-up table (or scaled between black and white point), multiplied by the tint colour if tinting is enabled, and weighted relative to the mean weight if the weights differ; the alpha component is the given constant. Row padding and source bitmaps stay unchanged, no access leaves the bitmaps or tables, and mismatching sizes, unsupported pixel types and look-up tables of the wrong size are refused.',
   I, 'all bitmaps and settings', 'tests sample a few images', ['MultiChannelCompositor.cpp', 'libCZI_Utilities.cpp'], [('blending kernels', 'MultiChannelCompositor.cpp')]),
 p('P24', 'Chunks and pixel masks in a subblock attachment stay within their bytes',
   'For every attachment content, the chunks of a chunk container are delivered in order, each with the identifier, size and offset stored in it, until the data ends or the callback stops; a chunk which exceeds the attachment is refused. The valid-pixel mask has exactly the width, height, stride and bits stored in its chunk, and a mask whose declared size does not fit its chunk is refused, so that no access leaves the attachment.',
   I, 'all attachment contents and sizes', 'tests use a few well-formed containers', ['SubblockAttachmentAccessor.cpp', 'bitmapData.h'], [('chunk enumeration and mask checks', 'SubblockAttachmentAccessor.cpp')]),
]
NA = {
 'P22': 'the behaviour is almost entirely pugixml (external dependency) plus floating-point text conversion; with pugixml as an assumed contract nothing of the property would be left to prove',
}
LEVEL = {'P21': 'thread-modular: every function is checked against contracts in which state protected by a mutex is known only while it is held (arbitrary on acquisition), so each obligation covers all interleavings with calls that keep the same contracts; the composition of the contracts to serialisability, sequentially consistent atomics and the absence of races in code not under contract (exercised with ThreadSanitizer, labelled bounded) are assumed'}

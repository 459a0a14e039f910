// stand-in for a header of the absent crypto3-block/hash libraries that marshalling.hpp includes but does not use

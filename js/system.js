module.exports = require('./stub.js').system;
